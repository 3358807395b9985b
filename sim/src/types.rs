//! Binding between the reference model and the real types: the simulator's own types,
//! declared with the `thrift!` macro of the code under test, and all Parquet metadata
//! types. The descriptions are pinned here (from parquet.thrift), not derived from /repo.

use crate::alloc::tracked;
use crate::io::{HookedSlice, PlainInput, PlainOutput};
use crate::model::{encode_canonical, Desc, FieldDesc, StructDesc, Value};
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftProtocol, ThriftError};
use std::borrow::Cow;
use std::io::{Read, Write};
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

pub trait Model: Sized {
    fn desc() -> Desc;
    fn from_value(v: &Value) -> Self;
    fn to_value(&self) -> Value;
    /// make room for `extra` more bytes or elements in everything that grows
    fn loosen(&mut self, _extra: usize) {}
}

fn int(v: &Value) -> i64 {
    match v {
        Value::Int(i) => *i,
        _ => panic!("harness: {v:?} is not an integer"),
    }
}
fn bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::Bytes(b) => b.clone(),
        // a list of bytes that the code under test represents as a binary
        Value::List(l) => l.iter().map(|v| int(v) as u8).collect(),
        _ => panic!("harness: {v:?} is not binary"),
    }
}
fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("harness: text")
}

/// no read may produce a `str` that is not UTF-8
fn text_value(s: &str) -> Value {
    let b = std::hint::black_box(s.as_bytes());
    assert!(std::str::from_utf8(b).is_ok(), "CHECK: invalid text, a string holds {b:?}");
    Value::Bytes(b.to_vec())
}

macro_rules! scalar {
    ($t:ty, $d:ident, $v:ident => $from:expr, $s:ident => $to:expr $(, $room:ident)?) => {
        impl Model for $t {
            fn desc() -> Desc {
                Desc::$d
            }
            fn from_value($v: &Value) -> Self {
                $from
            }
            fn to_value(&self) -> Value {
                let $s = self;
                $to
            }
            $(fn loosen(&mut self, $room: usize) { self.reserve($room) })?
        }
    };
}
scalar!(bool, Bool, v => match v { Value::Bool(b) => *b, _ => panic!("harness: bool") }, s => Value::Bool(*s));
scalar!(i8, I8, v => int(v) as i8, s => Value::Int(*s as i64));
scalar!(i16, I16, v => int(v) as i16, s => Value::Int(*s as i64));
scalar!(i32, I32, v => int(v) as i32, s => Value::Int(*s as i64));
scalar!(i64, I64, v => int(v), s => Value::Int(*s));
scalar!(f64, F64, v => match v { Value::F64(b) => f64::from_bits(*b), _ => panic!("harness: f64") }, s => Value::F64(s.to_bits()));
scalar!(Vec<u8>, Bin, v => bytes(v), s => Value::Bytes(s.clone()), n);
scalar!(String, Str, v => text(v), s => text_value(s), n);
scalar!(Box<str>, Str, v => text(v).into(), s => text_value(s));
scalar!(Rc<str>, Str, v => text(v).into(), s => text_value(s));
scalar!(Arc<str>, Str, v => text(v).into(), s => text_value(s));

impl Model for Cow<'_, [u8]> {
    fn desc() -> Desc {
        Desc::Bin
    }
    fn from_value(v: &Value) -> Self {
        Cow::Owned(bytes(v))
    }
    fn to_value(&self) -> Value {
        Value::Bytes(self.to_vec())
    }
    fn loosen(&mut self, extra: usize) {
        if let Cow::Owned(x) = self {
            x.reserve(extra);
        }
    }
}
impl Model for Cow<'_, str> {
    fn desc() -> Desc {
        Desc::Str
    }
    fn from_value(v: &Value) -> Self {
        Cow::Owned(text(v))
    }
    fn to_value(&self) -> Value {
        text_value(self)
    }
    fn loosen(&mut self, extra: usize) {
        if let Cow::Owned(x) = self {
            x.reserve(extra);
        }
    }
}
impl<T: Model> Model for Vec<T> {
    fn desc() -> Desc {
        Desc::List(T::desc)
    }
    fn from_value(v: &Value) -> Self {
        match v {
            Value::List(l) => l.iter().map(T::from_value).collect(),
            _ => panic!("harness: {v:?} is not a list"),
        }
    }
    fn to_value(&self) -> Value {
        Value::List(self.iter().map(T::to_value).collect())
    }
    fn loosen(&mut self, extra: usize) {
        self.reserve(extra);
        self.iter_mut().for_each(|x| x.loosen(extra));
    }
}
macro_rules! pointer {
    ($p:ident, $s:ident => $get:expr) => {
        impl<T: Model> Model for $p<T> {
            fn desc() -> Desc {
                T::desc()
            }
            fn from_value(v: &Value) -> Self {
                $p::new(T::from_value(v))
            }
            fn to_value(&self) -> Value {
                T::to_value(self)
            }
            fn loosen(&mut self, extra: usize) {
                let $s = self;
                if let Some(x) = $get {
                    x.loosen(extra);
                }
            }
        }
    };
}
pointer!(Box, s => Some(&mut **s));
pointer!(Rc, s => Rc::get_mut(s));
pointer!(Arc, s => Arc::get_mut(s));

/// pinned description of a field type
macro_rules! desc {
    (list $e:ident) => { Desc::List(|| desc!($e)) };
    (set $e:ident) => { Desc::Set(|| desc!($e)) };
    (Box $e:ident) => { desc!($e) };
    (Rc $e:ident) => { desc!($e) };
    (Arc $e:ident) => { desc!($e) };
    (bool) => { Desc::Bool };
    (i8) => { Desc::I8 };
    (byte) => { Desc::I8 };
    (i16) => { Desc::I16 };
    (i32) => { Desc::I32 };
    (i64) => { Desc::I64 };
    (double) => { Desc::F64 };
    (binary) => { Desc::Bin };
    (string) => { Desc::Str };
    (str) => { Desc::Str };
    ($t:ident) => { <$t as Model>::desc() };
}

/// a struct field, whichever way the code under test declares it: whether it is required
/// is pinned in the description and not taken from the declaration
trait Member {
    fn get(v: &Option<Value>) -> Self;
    fn put(&self) -> Option<Value>;
    fn room(&mut self, extra: usize);
}
impl<T: Model> Member for T {
    fn get(v: &Option<Value>) -> T {
        match v {
            Some(v) => T::from_value(v),
            None => panic!("CHECK: declaration, an optional field is declared as required"),
        }
    }
    fn put(&self) -> Option<Value> {
        Some(self.to_value())
    }
    fn room(&mut self, extra: usize) {
        self.loosen(extra)
    }
}
impl<T: Model> Member for Option<T> {
    fn get(v: &Option<Value>) -> Option<T> {
        v.as_ref().map(T::from_value)
    }
    fn put(&self) -> Option<Value> {
        self.as_ref().map(T::to_value)
    }
    fn room(&mut self, extra: usize) {
        self.iter_mut().for_each(|x| x.loosen(extra))
    }
}
macro_rules! is_required {
    (required) => {
        true
    };
    (optional) => {
        false
    };
}

macro_rules! model {
    () => {};
    (struct $n:ident { $($id:literal : $r:ident $ft:ident $(< $et:ident >)? $f:ident $(= $def:literal)? $(;)?)* } $($rest:tt)*) => {
        impl Model for $n {
            fn desc() -> Desc {
                static D: OnceLock<StructDesc> = OnceLock::new();
                Desc::Struct(|| D.get_or_init(|| StructDesc {
                    name: stringify!($n),
                    union: false,
                    fields: vec![$(FieldDesc { id: $id, name: stringify!($f), required: is_required!($r), desc: || desc!($ft $($et)?) }),*],
                }))
            }
            #[allow(unused_mut, unused_variables, clippy::needless_update)]
            fn from_value(v: &Value) -> Self {
                let Value::Struct(fields) = v else { panic!("harness: struct") };
                let mut it = fields.iter();
                $n { $($f: Member::get(it.next().unwrap()),)* ..Default::default() }
            }
            fn to_value(&self) -> Value {
                Value::Struct(vec![$(Member::put(&self.$f)),*])
            }
            #[allow(unused_variables)]
            fn loosen(&mut self, extra: usize) {
                $(Member::room(&mut self.$f, extra);)*
            }
        }
        model!($($rest)*);
    };
    (union $n:ident { $($id:literal : $ft:ident $(< $et:ident >)? $f:ident $(;)?)* } $($rest:tt)*) => {
        impl Model for $n {
            fn desc() -> Desc {
                static D: OnceLock<StructDesc> = OnceLock::new();
                Desc::Struct(|| D.get_or_init(|| StructDesc {
                    name: stringify!($n),
                    union: true,
                    fields: vec![$(FieldDesc { id: $id, name: stringify!($f), required: false, desc: || desc!($ft $($et)?) }),*],
                }))
            }
            #[allow(unused_assignments)]
            fn from_value(v: &Value) -> Self {
                let Value::Union(i, v) = v else { panic!("harness: union") };
                let mut k = 0_usize;
                $(
                    if *i == k {
                        return $n::$f(Model::from_value(v));
                    }
                    k += 1;
                )*
                panic!("harness: union member")
            }
            #[allow(unused_assignments)]
            fn to_value(&self) -> Value {
                let mut k = 0_usize;
                $(
                    #[allow(irrefutable_let_patterns)]
                    if let $n::$f(v) = self {
                        return Value::Union(k, Box::new(Model::to_value(v)));
                    }
                    k += 1;
                )*
                unreachable!()
            }
            #[allow(irrefutable_let_patterns)]
            fn loosen(&mut self, extra: usize) {
                $(
                    if let $n::$f(v) = self {
                        return Model::loosen(v, extra);
                    }
                )*
            }
        }
        model!($($rest)*);
    };
    (enum $n:ident { $($f:ident = $v:literal;)* } $($rest:tt)*) => {
        model!(enum $n);
        model!($($rest)*);
    };
    (enum $n:ident) => {
        impl Model for $n {
            fn desc() -> Desc { Desc::I32 }
            fn from_value(v: &Value) -> Self { $n(int(v) as i32) }
            fn to_value(&self) -> Value { Value::Int(self.0 as i64) }
        }
    };
}

/// declares with the macro under test and binds to the model
macro_rules! declare {
    ($($t:tt)*) => {
        compact_thrift_runtime::thrift! { $($t)* }
        model! { $($t)* }
    };
}

pub type ListOfInt = Vec<i32>;
pub type ListOfText = Vec<String>;
pub type ListOfBool = Vec<bool>;
pub type Matrix = Vec<Vec<i64>>;
pub type SharedText = Arc<str>;
pub type SharedReq = Rc<Req>;

declare! {
    struct Empty {}
    enum Color {
        RED = 0;
        GREEN = 1;
        BLUE = -7;
    }
    struct Scalars {
        1: required bool b;
        2: required i8 i8_;
        3: required i16 i16_;
        4: required i32 i32_;
        5: required i64 i64_;
        6: required double d;
        7: required string s;
        8: required binary bin;
        9: required Color color;
        10: required bool b2;
    }
    struct OptScalars {
        1: optional bool b;
        2: optional i8 i8_;
        3: optional i16 i16_;
        4: optional i32 i32_;
        5: optional i64 i64_;
        6: optional double d;
        7: optional string s;
        8: optional binary bin;
        9: optional Color color;
        10: optional bool b2;
    }
    struct Sparse {
        1: optional i32 a;
        16: optional i64 b;
        17: optional bool c;
        33: optional string d;
        49: optional bool e;
        300: optional i16 f;
        315: optional i8 g;
        331: optional double h;
        8192: required i32 i;
        16383: optional binary k;
        32000: optional list<bool> l;
        32767: optional bool m;
    }
    struct Unordered {
        5: optional i32 a;
        3: optional bool b;
        20: optional string c;
        1: required i64 d;
        2: optional double e;
        300: optional bool f;
        0: optional i16 g;
        -1: optional i32 h;
        -300: optional bool i;
        10: required bool j;
    }
    struct Lists {
        1: required list<bool> bools;
        2: required list<i8> i8s;
        3: optional list<i16> i16s;
        4: required list<i32> i32s;
        5: required list<i64> i64s;
        6: required list<double> doubles;
        7: required list<string> strings;
        8: required list<binary> binaries;
        9: required list<Color> colors;
    }
    struct Nested {
        1: required list<ListOfInt> ints;
        2: optional list<ListOfText> texts;
        3: optional list<ListOfBool> bools;
        4: optional list<Matrix> cube;
        5: optional list<Empty> nothings;
        6: required list<Scalars> scalars;
        7: optional list<Choice> choices;
        8: optional list<byte> raw;
        9: optional list<Sparse> sparse;
    }
    union Choice {
        1: Empty NOTHING
        2: bool FLAG
        3: i32 NUMBER
        4: string TEXT
        5: list<i64> NUMBERS
        6: Scalars STRUCT
        7: Color COLOR
        8: Inner UNION
        15: double DOUBLE
        16: bool FAR_FLAG
        40: binary FAR_BINARY
        1000: list<bool> FAR_LIST
        12: Box<OptScalars> BOXED
    }
    union Inner {
        1: Empty A
        2: i64 B
        -5: i8 C
    }
    struct Pointers {
        1: required Box<i64> box_int;
        2: required Rc<string> rc_string;
        3: required Arc<string> arc_string;
        4: required Rc<str> rc_str;
        5: required Arc<str> arc_str;
        6: required Box<str> box_str;
        7: optional Box<bool> box_flag;
        8: optional Rc<OptScalars> rc_struct;
        9: optional Arc<ListOfInt> arc_list;
        10: required Arc<bool> arc_flag;
        11: optional Rc<bool> rc_flag;
        12: optional Box<Choice> box_union;
        13: optional Arc<Matrix> arc_matrix;
        14: optional Rc<binary> rc_binary;
        15: optional Box<double> box_double;
    }
    struct Tree {
        1: required i32 value;
        2: optional Box<Tree> next;
        3: optional list<Tree> children;
        4: optional bool flag;
    }
    struct Wide {
        1: optional bool f1;  2: optional bool f2;  3: optional i32 f3;  4: optional i32 f4;
        5: optional i64 f5;   6: optional bool f6;  7: optional i8 f7;   8: optional string f8;
        9: optional bool f9;  10: optional i16 f10; 11: optional i32 f11; 12: optional bool f12;
        13: optional double f13; 14: optional i32 f14; 15: optional bool f15; 16: optional i32 f16;
        17: optional bool f17; 18: optional i64 f18; 19: optional i32 f19; 20: optional string f20;
        21: optional bool f21; 22: optional i32 f22; 23: optional i32 f23; 24: optional i32 f24;
        25: optional bool f25; 26: optional i32 f26; 27: optional i32 f27; 28: optional i32 f28;
        29: optional binary f29; 30: optional i32 f30; 31: optional bool f31; 32: optional i32 f32_;
        33: optional Empty f33; 34: optional Choice f34; 35: required i32 f35; 36: optional bool f36;
    }
    struct Mixed {
        1: required Scalars scalars;
        2: optional OptScalars opt;
        3: required Choice choice;
        4: optional Choice other;
        5: required Lists lists;
        6: optional Nested nested;
        7: optional Pointers pointers;
        8: optional Unordered unordered;
        9: required Empty empty;
        10: optional Empty empty2;
        31: optional Wide wide;
        32: optional Tree tree;
        12: required Sparse sparse;
        13: optional list<Unordered> list;
    }
    struct Req {
        1: required i32 a;
        2: required string b;
        3: required list<i64> c;
        4: required Rc<str> d;
        5: required bool e;
        6: required Choice f;
    }
    struct Shared {
        1: required Rc<str> rc_str;
        2: required Arc<str> arc_str;
        3: required Rc<string> rc_string;
        4: required Arc<ListOfInt> arc_list;
        5: required Rc<Req> rc_struct;
        6: required Arc<Matrix> arc_matrix;
        7: required Arc<bool> arc_flag;
        8: required Rc<binary> rc_binary;
        9: required Box<Req> boxed;
        10: required list<SharedText> texts;
        11: required Arc<i64> arc_int;
        12: required Rc<double> rc_double;
        13: required list<SharedReq> structs;
        14: required Arc<Inner> arc_union;
    }
}

// only used to demonstrate a known finding
compact_thrift_runtime::thrift! {
    struct WithSet {
        1: required set<i32> ids;
    }
}

// ---------------------------------------------------------------------------------------
// parquet

pub mod pq {
    use super::*;
    pub use compact_thrift_parquet::format::*;
    pub use compact_thrift_parquet::EncodingSet;

    impl Model for EncodingSet {
        fn desc() -> Desc {
            Desc::EncSet
        }
        fn from_value(v: &Value) -> Self {
            // the only constructor is decoding
            let b = encode_canonical(Desc::EncSet, v);
            EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&b)).expect("encoding set from its encoding")
        }
        fn to_value(&self) -> Value {
            let items: Vec<Value> = self.iter().map(|e| Value::Int(e.0 as i64)).collect();
            assert_eq!(items.len(), self.len(), "CHECK: EncodingSet::len");
            assert_eq!(items.is_empty(), self.is_empty(), "CHECK: EncodingSet::is_empty");
            Value::List(items)
        }
    }

    fn written<T: for<'i> CompactThriftProtocol<'i>>(v: T) -> Vec<u8> {
        let mut b = Vec::new();
        let _ = v.write_thrift(&mut b);
        b
    }
    /// values made by the generated constructors, with their encodings
    pub type Built = (&'static str, fn() -> Vec<u8>, &'static [u8]);
    pub const BUILT: &[Built] = &[
        ("PageLocation::new(1, 2, 3)", || written(PageLocation::new(1, 2, 3)), &[0x16, 2, 0x15, 4, 0x16, 6, 0]),
        ("SortingColumn::new(5, true, false)", || written(SortingColumn::new(5, true, false)), &[0x15, 10, 0x11, 0x12, 0]),
        ("KeyValue::new(k, v)", || written(KeyValue::new("k", "v".to_string())), &[0x18, 1, b'k', 0x18, 1, b'v', 0]),
        ("KeyValue::new(k, None)", || written(KeyValue::new("k", None)), &[0x18, 1, b'k', 0]),
        (
            "Statistics::new(a, b, 1, 2, c, d, true, false)",
            || {
                let b = |s: &str| Some(s.as_bytes().to_vec());
                written(Statistics::new(b("a"), b("b"), 1, 2, b("c"), b("d"), true, false))
            },
            &[0x18, 1, b'a', 0x18, 1, b'b', 0x16, 2, 0x16, 4, 0x18, 1, b'c', 0x18, 1, b'd', 0x11, 0x12, 0],
        ),
        ("Encoding::from(9)", || written(Encoding::from(9)), &[18]),
        ("PageType::from(-1)", || written(PageType::from(-1)), &[1]),
    ];

    /// named values of the enums, pinned from parquet.thrift
    pub type Constant = (&'static str, i32, fn() -> Vec<u8>);
    macro_rules! constants {
        ($($n:ident: $($c:ident $v:literal),*;)*) => {
            pub const CONSTANTS: &[Constant] = &[$($(
                (concat!(stringify!($n), "::", stringify!($c)), $v, || {
                    let mut b = Vec::new();
                    let _ = $n::$c.write_thrift(&mut b);
                    b
                }),
            )*)*];
        };
    }
    constants! {
        Type: BOOLEAN 0, INT32 1, INT64 2, INT96 3, FLOAT 4, DOUBLE 5, BYTE_ARRAY 6, FIXED_LEN_BYTE_ARRAY 7;
        ConvertedType: UTF8 0, MAP 1, MAP_KEY_VALUE 2, LIST 3, ENUM 4, DECIMAL 5, DATE 6, TIME_MILLIS 7, TIME_MICROS 8, TIMESTAMP_MILLIS 9, TIMESTAMP_MICROS 10, UINT_8 11, UINT_16 12, UINT_32 13, UINT_64 14, INT_8 15, INT_16 16, INT_32 17, INT_64 18, JSON 19, BSON 20, INTERVAL 21;
        FieldRepetitionType: REQUIRED 0, OPTIONAL 1, REPEATED 2;
        EdgeInterpolationAlgorithm: SPHERICAL 0, VINCENTY 1, THOMAS 2, ANDOYER 3, KARNEY 4;
        Encoding: PLAIN 0, PLAIN_DICTIONARY 2, RLE 3, BIT_PACKED 4, DELTA_BINARY_PACKED 5, DELTA_LENGTH_BYTE_ARRAY 6, DELTA_BYTE_ARRAY 7, RLE_DICTIONARY 8, BYTE_STREAM_SPLIT 9;
        CompressionCodec: UNCOMPRESSED 0, SNAPPY 1, GZIP 2, LZO 3, BROTLI 4, LZ4 5, ZSTD 6, LZ4_RAW 7;
        PageType: DATA_PAGE 0, INDEX_PAGE 1, DICTIONARY_PAGE 2, DATA_PAGE_V2 3;
        BoundaryOrder: UNORDERED 0, ASCENDING 1, DESCENDING 2;
    }

    model!(enum Type);
    model!(enum ConvertedType);
    model!(enum FieldRepetitionType);
    model!(enum EdgeInterpolationAlgorithm);
    model!(enum Encoding);
    model!(enum CompressionCodec);
    model!(enum PageType);
    model!(enum BoundaryOrder);
    model! {
        struct SizeStatistics {
           1: optional i64 unencoded_byte_array_data_bytes;
           2: optional list<i64> repetition_level_histogram;
           3: optional list<i64> definition_level_histogram;
        }
        struct BoundingBox {
          1: required double xmin;
          2: required double xmax;
          3: required double ymin;
          4: required double ymax;
          5: optional double zmin;
          6: optional double zmax;
          7: optional double mmin;
          8: optional double mmax;
        }
        struct GeospatialStatistics {
          1: optional BoundingBox bbox;
          2: optional list<i32> geospatial_types;
        }
        struct Statistics {
           1: optional binary max;
           2: optional binary min;
           3: optional i64 null_count;
           4: optional i64 distinct_count;
           5: optional binary max_value;
           6: optional binary min_value;
           7: optional bool is_max_value_exact;
           8: optional bool is_min_value_exact;
        }
        struct StringType {}
        struct UUIDType {}
        struct MapType {}
        struct ListType {}
        struct EnumType {}
        struct DateType {}
        struct Float16Type {}
        struct NullType {}
        struct DecimalType {
          1: required i32 scale
          2: required i32 precision
        }
        struct MilliSeconds {}
        struct MicroSeconds {}
        struct NanoSeconds {}
        union TimeUnit {
          1: MilliSeconds MILLIS
          2: MicroSeconds MICROS
          3: NanoSeconds NANOS
        }
        struct TimestampType {
          1: required bool isAdjustedToUTC
          2: required TimeUnit unit
        }
        struct TimeType {
          1: required bool isAdjustedToUTC
          2: required TimeUnit unit
        }
        struct IntType {
          1: required i8 bitWidth
          2: required bool isSigned
        }
        struct JsonType {
        }
        struct BsonType {
        }
        struct VariantType {
          1: optional i8 specification_version
        }
        struct GeometryType {
          1: optional string crs;
        }
        struct GeographyType {
          1: optional string crs;
          2: optional EdgeInterpolationAlgorithm algorithm;
        }
        union LogicalType {
          1:  StringType STRING
          2:  MapType MAP
          3:  ListType LIST
          4:  EnumType ENUM
          5:  DecimalType DECIMAL
          6:  DateType DATE
          7:  TimeType TIME
          8:  TimestampType TIMESTAMP
          10: IntType INTEGER
          11: NullType UNKNOWN
          12: JsonType JSON
          13: BsonType BSON
          14: UUIDType UUID
          15: Float16Type FLOAT16
          16: VariantType VARIANT
          17: GeometryType GEOMETRY
          18: GeographyType GEOGRAPHY
        }
        struct SchemaElement {
          1: optional Type type_;
          2: optional i32 type_length;
          3: optional FieldRepetitionType repetition_type;
          4: required string name;
          5: optional i32 num_children;
          6: optional ConvertedType converted_type;
          7: optional i32 scale
          8: optional i32 precision
          9: optional i32 field_id;
          10: optional LogicalType logicalType
        }
        struct DataPageHeader {
          1: required i32 num_values
          2: required Encoding encoding
          3: required Encoding definition_level_encoding;
          4: required Encoding repetition_level_encoding;
          5: optional Statistics statistics;
        }
        struct IndexPageHeader {
        }
        struct DictionaryPageHeader {
          1: required i32 num_values;
          2: required Encoding encoding
          3: optional bool is_sorted;
        }
        struct DataPageHeaderV2 {
          1: required i32 num_values
          2: required i32 num_nulls
          3: required i32 num_rows
          4: required Encoding encoding
          5: required i32 definition_levels_byte_length;
          6: required i32 repetition_levels_byte_length;
          7: optional bool is_compressed = true;
          8: optional Statistics statistics;
        }
        struct SplitBlockAlgorithm {}
        union BloomFilterAlgorithm {
          1: SplitBlockAlgorithm BLOCK;
        }
        struct XxHash {}
        union BloomFilterHash {
          1: XxHash XXHASH;
        }
        struct Uncompressed {}
        union BloomFilterCompression {
          1: Uncompressed UNCOMPRESSED;
        }
        struct BloomFilterHeader {
          1: required i32 numBytes;
          2: required BloomFilterAlgorithm algorithm;
          3: required BloomFilterHash hash;
          4: required BloomFilterCompression compression;
        }
        struct PageHeader {
          1: required PageType type_
          2: required i32 uncompressed_page_size
          3: required i32 compressed_page_size
          4: optional i32 crc
          5: optional DataPageHeader data_page_header;
          6: optional IndexPageHeader index_page_header;
          7: optional DictionaryPageHeader dictionary_page_header;
          8: optional DataPageHeaderV2 data_page_header_v2;
        }
        struct KeyValue {
          1: required string key
          2: optional string value
        }
        struct SortingColumn {
          1: required i32 column_idx
          2: required bool descending
          3: required bool nulls_first
        }
        struct PageEncodingStats {
          1: required PageType page_type;
          2: required Encoding encoding;
          3: required i32 count;
        }
        struct ColumnMetaData {
          1: required Type type_
          2: required EncodingSet encodings
          4: required CompressionCodec codec
          5: required i64 num_values
          6: required i64 total_uncompressed_size
          7: required i64 total_compressed_size
          8: optional list<KeyValue> key_value_metadata
          9: required i64 data_page_offset
          11: optional i64 dictionary_page_offset
          12: optional Statistics statistics;
          13: optional list<PageEncodingStats> encoding_stats;
          14: optional i64 bloom_filter_offset;
          15: optional i32 bloom_filter_length;
          16: optional SizeStatistics size_statistics;
          17: optional Box<GeospatialStatistics> geospatial_statistics;
        }
        struct EncryptionWithFooterKey {
        }
        struct EncryptionWithColumnKey {
          1: required list<string> path_in_schema
          2: optional binary key_metadata
        }
        union ColumnCryptoMetaData {
          1: EncryptionWithFooterKey ENCRYPTION_WITH_FOOTER_KEY
          2: EncryptionWithColumnKey ENCRYPTION_WITH_COLUMN_KEY
        }
        struct ColumnChunk {
          1: optional string file_path
          2: required i64 file_offset = 0
          3: optional ColumnMetaData meta_data
          4: optional i64 offset_index_offset
          5: optional i32 offset_index_length
          6: optional i64 column_index_offset
          7: optional i32 column_index_length
          8: optional Box<ColumnCryptoMetaData> crypto_metadata
          9: optional binary encrypted_column_metadata
        }
        struct RowGroup {
          1: required list<ColumnChunk> columns
          2: required i64 total_byte_size
          3: required i64 num_rows
          4: optional list<SortingColumn> sorting_columns
          5: optional i64 file_offset
          6: optional i64 total_compressed_size
          7: optional i16 ordinal
        }
        struct TypeDefinedOrder {}
        union ColumnOrder {
          1: TypeDefinedOrder TYPE_ORDER;
        }
        struct PageLocation {
          1: required i64 offset
          2: required i32 compressed_page_size
          3: required i64 first_row_index
        }
        struct OffsetIndex {
          1: required list<PageLocation> page_locations
          2: optional list<i64> unencoded_byte_array_data_bytes
        }
        struct ColumnIndex {
          1: required list<bool> null_pages
          2: required list<binary> min_values
          3: required list<binary> max_values
          4: required BoundaryOrder boundary_order
          5: optional list<i64> null_counts
           6: optional list<i64> repetition_level_histograms;
           7: optional list<i64> definition_level_histograms;
        }
        struct AesGcmV1 {
          1: optional binary aad_prefix
          2: optional binary aad_file_unique
          3: optional bool supply_aad_prefix
        }
        struct AesGcmCtrV1 {
          1: optional binary aad_prefix
          2: optional binary aad_file_unique
          3: optional bool supply_aad_prefix
        }
        union EncryptionAlgorithm {
          1: AesGcmV1 AES_GCM_V1
          2: AesGcmCtrV1 AES_GCM_CTR_V1
        }
        struct FileMetaData {
          1: required i32 version
          2: required list<SchemaElement> schema;
          3: required i64 num_rows
          4: required list<RowGroup> row_groups
          5: optional list<KeyValue> key_value_metadata
          6: optional string created_by
          7: optional list<ColumnOrder> column_orders;
          8: optional EncryptionAlgorithm encryption_algorithm
          9: optional binary footer_signing_key_metadata
        }
        struct FileCryptoMetaData {
          1: required EncryptionAlgorithm encryption_algorithm
          2: optional binary key_metadata
        }
    }
}

// ---------------------------------------------------------------------------------------
// type-erased operations

type R<T> = Result<T, ThriftError>;

#[derive(Clone, Copy)]
pub struct TypeOps {
    pub name: &'static str,
    pub desc: fn() -> Desc,
    pub field_type: u8,
    pub read_slice: for<'a> fn(&mut CompactThriftInputSlice<'a>) -> R<Value>,
    pub read_stream: fn(&mut dyn Read) -> R<Value>,
    pub read_hooked: for<'a, 'h> fn(&mut HookedSlice<'a, 'h>) -> R<Value>,
    pub read_plain: for<'a> fn(&mut PlainInput<'a>) -> R<Value>,
    pub write: fn(&Value, &mut dyn Write) -> R<()>,
    pub write_plain: fn(&Value, &mut PlainOutput) -> R<()>,
    pub weight: u32,
}

fn read_slice<'a, T: Model + Default + CompactThriftProtocol<'a>>(i: &mut CompactThriftInputSlice<'a>) -> R<Value> {
    let r = tracked(|| T::read_thrift(i));
    let v = r.as_ref().map(|t| t.to_value()).map_err(Clone::clone);
    tracked(|| drop(r));
    v
}
fn read_stream<T: Model + Default + CompactThriftProtocol<'static>>(mut i: &mut dyn Read) -> R<Value> {
    let r = tracked(|| T::read_thrift(&mut i));
    let v = r.as_ref().map(|t| t.to_value()).map_err(Clone::clone);
    tracked(|| drop(r));
    v
}
fn read_hooked<'a, T: Model + Default + CompactThriftProtocol<'a>>(i: &mut HookedSlice<'a, '_>) -> R<Value> {
    let r = tracked(|| T::read_thrift(i));
    let v = r.as_ref().map(|t| t.to_value()).map_err(Clone::clone);
    tracked(|| drop(r));
    v
}
fn read_plain<'a, T: Model + Default + CompactThriftProtocol<'a>>(i: &mut PlainInput<'a>) -> R<Value> {
    let r = tracked(|| T::read_thrift(i));
    let v = r.as_ref().map(|t| t.to_value()).map_err(Clone::clone);
    tracked(|| drop(r));
    v
}
fn write_plain<T: Model + CompactThriftProtocol<'static>>(v: &Value, o: &mut PlainOutput) -> R<()> {
    let t = T::from_value(v);
    tracked(|| t.write_thrift(o))
}
fn write<T: Model + CompactThriftProtocol<'static>>(v: &Value, mut o: &mut dyn Write) -> R<()> {
    let t = T::from_value(v);
    tracked(|| t.write_thrift(&mut o))
}

/// skip a complete value by wire type
pub fn skip_slice(ty: u8, i: &mut CompactThriftInputSlice<'_>) -> R<()> {
    tracked(|| i.skip_field(ty))
}
pub fn skip_stream(ty: u8, mut i: &mut dyn Read) -> R<()> {
    tracked(|| CompactThriftInput::skip_field(&mut i, ty))
}

macro_rules! ops {
    ($($w:literal $t:ty),* $(,)?) => {
        vec![$(TypeOps {
            name: stringify!($t),
            desc: <$t as Model>::desc,
            field_type: <$t as CompactThriftProtocol<'static>>::FIELD_TYPE,
            read_slice: |i| read_slice::<$t>(i),
            read_stream: read_stream::<$t>,
            read_hooked: |i| read_hooked::<$t>(i),
            read_plain: |i| read_plain::<$t>(i),
            write: write::<$t>,
            write_plain: write_plain::<$t>,
            weight: $w,
        }),*]
    };
}

pub struct Registry {
    pub all: Vec<TypeOps>,
    /// indices of struct and union types
    pub structs: Vec<usize>,
    weights: Vec<u32>,
    struct_weights: Vec<u32>,
}

impl Registry {
    pub fn pick(&self, t: &mut crate::tape::Tape) -> TypeOps {
        self.all[t.weighted(&self.weights)]
    }
    pub fn pick_struct(&self, t: &mut crate::tape::Tape) -> TypeOps {
        self.all[self.structs[t.weighted(&self.struct_weights)]]
    }
    pub fn by_name(&self, n: &str) -> TypeOps {
        *self.all.iter().find(|o| o.name == n).unwrap_or_else(|| panic!("harness: type {n}"))
    }
}

pub fn registry() -> &'static Registry {
    static REG: OnceLock<Registry> = OnceLock::new();
    REG.get_or_init(|| {
        let mut all = ops![
            4 Scalars, 6 OptScalars, 6 Sparse, 6 Unordered, 6 Lists, 8 Nested, 8 Choice, 3 Inner, 6 Pointers,
            4 Tree, 5 Wide, 10 Mixed, 1 Empty, 1 Color, 2 Req, 3 Shared,
            1 bool, 1 i8, 1 i16, 1 i32, 2 i64, 1 f64, 1 String, 1 Vec<u8>,
            1 Vec<bool>, 1 Vec<i8>, 1 Vec<i16>, 1 Vec<i32>, 2 Vec<i64>, 1 Vec<f64>, 2 Vec<String>, 2 Vec<Vec<u8>>,
            1 Vec<Color>, 2 Vec<Empty>, 2 Vec<Choice>, 1 Vec<Scalars>, 1 Matrix, 1 Vec<Matrix>, 1 Vec<ListOfBool>,
            1 Box<str>, 1 Rc<str>, 1 Arc<str>, 1 Vec<Arc<str>>, 1 Vec<Box<bool>>, 1 Box<Scalars>, 1 Arc<Vec<i64>>,
        ];
        // types that borrow from memory sources
        all.push(TypeOps {
            name: "Cow<str>",
            desc: <Cow<'static, str> as Model>::desc,
            field_type: 8,
            read_slice: |i| borrowed_str(i),
            read_stream: |mut i| {
                let mut c: Cow<'static, str> = Cow::Borrowed("");
                tracked(|| c.fill_thrift(&mut i))?;
                Ok(c.to_value())
            },
            read_hooked: |i| {
                let mut c: Cow<'_, str> = Cow::Borrowed("");
                tracked(|| c.fill_thrift(i))?;
                Ok(c.to_value())
            },
            read_plain: |i| {
                let mut c: Cow<'_, str> = Cow::Borrowed("");
                tracked(|| c.fill_thrift(i))?;
                Ok(c.to_value())
            },
            write: |v, mut o| {
                let c = Cow::<'static, str>::from_value(v);
                tracked(|| c.write_thrift(&mut o))
            },
            write_plain: |v, o| {
                let c = Cow::<'static, str>::from_value(v);
                tracked(|| c.write_thrift(o))
            },
            weight: 1,
        });
        all.push(TypeOps {
            name: "Cow<[u8]>",
            desc: <Cow<'static, [u8]> as Model>::desc,
            field_type: 8,
            read_slice: |i| borrowed_bin(i),
            read_stream: |mut i| {
                let mut c: Cow<'static, [u8]> = Cow::Borrowed(&[]);
                tracked(|| c.fill_thrift(&mut i))?;
                Ok(c.to_value())
            },
            read_hooked: |i| {
                let mut c: Cow<'_, [u8]> = Cow::Borrowed(&[]);
                tracked(|| c.fill_thrift(i))?;
                Ok(c.to_value())
            },
            read_plain: |i| {
                let mut c: Cow<'_, [u8]> = Cow::Borrowed(&[]);
                tracked(|| c.fill_thrift(i))?;
                Ok(c.to_value())
            },
            write: |v, mut o| {
                let c = Cow::<'static, [u8]>::from_value(v);
                tracked(|| c.write_thrift(&mut o))
            },
            write_plain: |v, o| {
                let c = Cow::<'static, [u8]>::from_value(v);
                tracked(|| c.write_thrift(o))
            },
            weight: 1,
        });
        use pq::*;
        all.extend(ops![
            14 FileMetaData, 4 RowGroup, 4 ColumnChunk, 4 ColumnMetaData, 4 PageHeader, 3 OffsetIndex, 4 ColumnIndex,
            2 SchemaElement, 3 LogicalType, 2 Statistics, 1 SizeStatistics, 1 GeospatialStatistics, 1 BoundingBox,
            1 DataPageHeader, 1 DataPageHeaderV2, 1 DictionaryPageHeader, 1 BloomFilterHeader, 2 EncodingSet,
            1 ColumnCryptoMetaData, 1 EncryptionAlgorithm, 1 FileCryptoMetaData, 1 TimestampType, 1 IntType,
            1 GeographyType, 1 KeyValue, 1 SortingColumn, 1 PageLocation, 1 PageEncodingStats, 1 ColumnOrder,
        ]);
        let structs: Vec<usize> =
            (0..all.len()).filter(|i| matches!((all[*i].desc)(), Desc::Struct(_))).collect();
        let weights = all.iter().map(|o| o.weight).collect();
        let struct_weights = structs.iter().map(|i| all[*i].weight).collect();
        Registry { all, structs, weights, struct_weights }
    })
}

fn borrowed_str<'a>(i: &mut CompactThriftInputSlice<'a>) -> R<Value> {
    let whole = i.as_slice();
    let mut c: Cow<'a, str> = Cow::Borrowed("");
    tracked(|| c.fill_thrift(i))?;
    check_inside(whole, matches!(c, Cow::Borrowed(_)).then(|| c.as_bytes()));
    Ok(c.to_value())
}
fn borrowed_bin<'a>(i: &mut CompactThriftInputSlice<'a>) -> R<Value> {
    let whole = i.as_slice();
    let mut c: Cow<'a, [u8]> = Cow::Borrowed(&[]);
    tracked(|| c.fill_thrift(i))?;
    check_inside(whole, matches!(c, Cow::Borrowed(_)).then(|| &c[..]));
    Ok(c.to_value())
}
fn check_inside(whole: &[u8], part: Option<&[u8]>) {
    if let Some(p) = part {
        let w = whole.as_ptr_range();
        let p = p.as_ptr_range();
        assert!(p.start >= w.start && p.end <= w.end, "CHECK: borrowed data outside the source");
    }
}
