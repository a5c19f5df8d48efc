// Stand-ins for the file system and for serde / serde_json: the value of a JSON text, and how std's types are read from a value.
pub mod vx_json {
use vstd::prelude::*;
verus! {
/// a JSON value; an object keeps its entries in the order of the text, with duplicates
pub enum J { Null, Bool(bool), Uint(nat), Nint(int), Float, Str(Seq<char>), Arr(Seq<J>), Obj(Seq<(Seq<char>, J)>) }
/// the value serde_json reads in a text; None: it is malformed
pub uninterp spec fn json_text(s: Seq<char>) -> Option<J>;
/// the text of the file; None: it cannot be read or is not UTF-8
pub uninterp spec fn path_text<P>(p: P) -> Option<Seq<char>>;
pub trait VxAsPath {}
#[verifier::external_body] pub struct VxIoError { x: u8 }
#[verifier::external_body] pub struct VxJsonError { x: u8 }
#[verifier::external_body] pub fn vx_read_to_string<P>(p: P) -> (r: Result<String, VxIoError>) ensures match r { Ok(s) => path_text(p) == Some(s@), Err(_) => path_text(p) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_from_json<T: VxDe>(s: &str) -> (r: Result<T, VxJsonError>)
    ensures match r { Ok(v) => json_text(s@) matches Some(j) && T::vx_de(j, v) && T::vx_de_ok(j), Err(_) => json_text(s@) is None || !T::vx_de_ok(json_text(s@).unwrap()) } { unimplemented!() }
/// what serde reads: whether a value can be read as this type, and as what
pub trait VxDe: Sized { spec fn vx_de(j: J, r: Self) -> bool; spec fn vx_de_ok(j: J) -> bool; spec fn vx_de_default(r: Self) -> bool; }
impl VxDe for String { open spec fn vx_de(j: J, r: String) -> bool { j == J::Str(r@) } open spec fn vx_de_ok(j: J) -> bool { j is Str } open spec fn vx_de_default(r: String) -> bool { r@.len() == 0 } }
impl VxDe for bool { open spec fn vx_de(j: J, r: bool) -> bool { j == J::Bool(r) } open spec fn vx_de_ok(j: J) -> bool { j is Bool } open spec fn vx_de_default(r: bool) -> bool { !r } }
impl VxDe for u8 { open spec fn vx_de(j: J, r: u8) -> bool { j == J::Uint(r as nat) } open spec fn vx_de_ok(j: J) -> bool { j matches J::Uint(n) && n <= 0xff } open spec fn vx_de_default(r: u8) -> bool { r == 0 } }
impl VxDe for u16 { open spec fn vx_de(j: J, r: u16) -> bool { j == J::Uint(r as nat) } open spec fn vx_de_ok(j: J) -> bool { j matches J::Uint(n) && n <= 0xffff } open spec fn vx_de_default(r: u16) -> bool { r == 0 } }
impl VxDe for u32 { open spec fn vx_de(j: J, r: u32) -> bool { j == J::Uint(r as nat) } open spec fn vx_de_ok(j: J) -> bool { j matches J::Uint(n) && n <= 0xffffffff } open spec fn vx_de_default(r: u32) -> bool { r == 0 } }
impl VxDe for u64 { open spec fn vx_de(j: J, r: u64) -> bool { j == J::Uint(r as nat) } open spec fn vx_de_ok(j: J) -> bool { j matches J::Uint(n) && n <= 0xffffffffffffffff } open spec fn vx_de_default(r: u64) -> bool { r == 0 } }
impl<T: VxDe> VxDe for Vec<T> {
    open spec fn vx_de(j: J, r: Vec<T>) -> bool { j matches J::Arr(a) && a.len() == r@.len() && forall|i: int| 0 <= i < a.len() ==> T::vx_de(#[trigger] a[i], r@[i]) }
    open spec fn vx_de_ok(j: J) -> bool { j matches J::Arr(a) && forall|i: int| 0 <= i < a.len() ==> T::vx_de_ok(#[trigger] a[i]) }
    open spec fn vx_de_default(r: Vec<T>) -> bool { r@.len() == 0 }
}
/// HashMap<String, T>
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxMap<T> { x: Vec<T> }
impl<T> View for VxMap<T> { type V = Map<Seq<char>, T>; uninterp spec fn view(&self) -> Map<Seq<char>, T>; }
pub open spec fn is_key(o: Seq<(Seq<char>, J)>, k: Seq<char>, i: int) -> bool { 0 <= i < o.len() && o[i].0 == k }
pub open spec fn has_key(o: Seq<(Seq<char>, J)>, k: Seq<char>) -> bool { exists|i: int| #[trigger] is_key(o, k, i) }
/// entry i is the last one of its key
pub open spec fn last_of_key(o: Seq<(Seq<char>, J)>, i: int) -> bool { 0 <= i < o.len() && forall|m: int| i < m ==> !#[trigger] is_key(o, o[i].0, m) }
impl<T: VxDe> VxDe for VxMap<T> {
    open spec fn vx_de(j: J, r: VxMap<T>) -> bool {
        j matches J::Obj(o) && (forall|k: Seq<char>| #[trigger] r@.dom().contains(k) == has_key(o, k)) && forall|i: int| #[trigger] last_of_key(o, i) ==> T::vx_de(o[i].1, r@[o[i].0])
    }
    open spec fn vx_de_ok(j: J) -> bool { j matches J::Obj(o) && forall|i: int| 0 <= i < o.len() ==> T::vx_de_ok((#[trigger] o[i]).1) }
    open spec fn vx_de_default(r: VxMap<T>) -> bool { r@.dom() == Set::<Seq<char>>::empty() }
}
/// the entry of a key that occurs once
pub open spec fn only(o: Seq<(Seq<char>, J)>, k: Seq<char>, i: int) -> bool { is_key(o, k, i) && forall|m: int| #[trigger] is_key(o, k, m) ==> m == i }
pub open spec fn entry(o: Seq<(Seq<char>, J)>, k: Seq<char>) -> Option<J> { if exists|i: int| only(o, k, i) { Some(o[choose|i: int| only(o, k, i)].1) } else { None } }
/// field i of a struct with these field names: by name from an object, by position from an array
pub open spec fn vx_field(j: J, names: Seq<Seq<char>>, i: int) -> Option<J> { match j { J::Obj(o) => entry(o, names[i]), J::Arr(a) => if i < a.len() { Some(a[i]) } else { None }, _ => None } }
pub open spec fn vx_no_field(j: J, names: Seq<Seq<char>>, i: int) -> bool { match j { J::Obj(o) => !has_key(o, names[i]), J::Arr(a) => i >= a.len(), _ => false } }
/// the same for a field with further names: exactly one entry has any of them
pub open spec fn is_key_of(o: Seq<(Seq<char>, J)>, ks: Seq<Seq<char>>, i: int) -> bool { 0 <= i < o.len() && ks.contains(o[i].0) }
pub open spec fn only_of(o: Seq<(Seq<char>, J)>, ks: Seq<Seq<char>>, i: int) -> bool { is_key_of(o, ks, i) && forall|m: int| #[trigger] is_key_of(o, ks, m) ==> m == i }
pub open spec fn entry_of(o: Seq<(Seq<char>, J)>, ks: Seq<Seq<char>>) -> Option<J> { if exists|i: int| only_of(o, ks, i) { Some(o[choose|i: int| only_of(o, ks, i)].1) } else { None } }
pub open spec fn vx_field_as(j: J, names: Seq<Seq<char>>, i: int, ks: Seq<Seq<char>>) -> Option<J> { match j { J::Obj(o) => entry_of(o, ks), J::Arr(a) => if i < a.len() { Some(a[i]) } else { None }, _ => None } }
pub open spec fn vx_no_field_as(j: J, names: Seq<Seq<char>>, i: int, ks: Seq<Seq<char>>) -> bool { match j { J::Obj(o) => !exists|m: int| is_key_of(o, ks, m), J::Arr(a) => i >= a.len(), _ => false } }
/// deny_unknown_fields
pub open spec fn vx_known_only(j: J, ks: Seq<Seq<char>>) -> bool { j matches J::Obj(o) ==> forall|i: int| 0 <= i < o.len() ==> ks.contains((#[trigger] o[i]).0) }
pub open spec fn vx_fields_ok(j: J, names: Seq<Seq<char>>) -> bool { match j { J::Obj(_) => true, J::Arr(a) => a.len() <= names.len(), _ => false } }
}
}
use vx_json::*;
/// serde's traits, as far as the crate uses them
pub mod de {
    use vstd::prelude::*;
    use super::vx_json::*;
    verus! {
    pub trait Error: Sized { fn custom<T>(msg: T) -> (r: Self); }
    pub trait Deserializer<'de>: Sized {
        type Error: Error;
        /// the value this reads
        spec fn vx_j(&self) -> J;
    }
    impl Error for VxJsonError { #[verifier::external_body] fn custom<T>(msg: T) -> (r: VxJsonError) { unimplemented!() } }
    }
}
verus! {
pub trait Deserialize<'de>: VxDe {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) ensures match r { Ok(v) => Self::vx_de(d.vx_j(), v), Err(_) => !Self::vx_de_ok(d.vx_j()) };
}
impl<'de> Deserialize<'de> for String { #[verifier::external_body] fn deserialize<D: de::Deserializer<'de>>(d: D) -> (r: Result<String, D::Error>) { unimplemented!() } }
}
verus! {
// ---------- C20: what a repository metadata document has to look like ----------
pub open spec fn vx_with_deserialize_json_str_to_version(j: J, v: Version) -> bool { j matches J::Str(t) && text_ok(t) && is_version(v, t) }
pub open spec fn vx_with_ok_deserialize_json_str_to_version(j: J) -> bool { j matches J::Str(t) && text_ok(t) }
/// the value of a field of an object
pub open spec fn fld(j: J, k: Seq<char>) -> Option<J> { match j { J::Obj(o) => entry(o, k), _ => None } }
pub open spec fn str_field(j: J, k: Seq<char>) -> bool { fld(j, k) matches Some(v) && v is Str }
pub open spec fn uint_field(j: J, k: Seq<char>, max: nat) -> bool { fld(j, k) matches Some(J::Uint(n)) && n <= max }
pub open spec fn is_strs(j: J) -> bool { j matches J::Arr(a) && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Str }
pub open spec fn strs_field(j: J, k: Seq<char>) -> bool { fld(j, k) matches Some(v) && is_strs(v) }
pub open spec fn strs(j: J, v: Seq<String>) -> bool { j matches J::Arr(a) && a.len() == v.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == J::Str(v[i]@) }
pub open spec fn record_ok(j: J) -> bool {
    &&& str_field(j, "build"@) && str_field(j, "md5"@) && str_field(j, "name"@) && str_field(j, "sha256"@)
    &&& uint_field(j, "build_number"@, 0xffff) && uint_field(j, "size"@, 0xffffffffffffffff) && uint_field(j, "timestamp"@, 0xffffffffffffffff)
    &&& strs_field(j, "depends"@)
    &&& fld(j, "version"@) matches Some(J::Str(t)) && text_ok(t)
}
pub open spec fn is_record(j: J, r: Record) -> bool {
    &&& fld(j, "build"@) == Some(J::Str(r.build@)) && fld(j, "md5"@) == Some(J::Str(r.md5@)) && fld(j, "name"@) == Some(J::Str(r.name@)) && fld(j, "sha256"@) == Some(J::Str(r.sha256@))
    &&& fld(j, "build_number"@) == Some(J::Uint(r.build_number as nat)) && fld(j, "size"@) == Some(J::Uint(r.size as nat)) && fld(j, "timestamp"@) == Some(J::Uint(r.timestamp as nat))
    &&& fld(j, "depends"@) matches Some(v) && strs(v, r.depends@)
    &&& fld(j, "version"@) matches Some(J::Str(t)) && text_ok(t) && is_version(r.version, t)
}
pub open spec fn table_ok(j: J) -> bool { j matches J::Obj(o) && forall|i: int| 0 <= i < o.len() ==> record_ok((#[trigger] o[i]).1) }
/// every package under its key
pub open spec fn is_table(j: J, m: Map<Seq<char>, Record>) -> bool {
    j matches J::Obj(o) && (forall|k: Seq<char>| #[trigger] m.dom().contains(k) == has_key(o, k)) && forall|i: int| #[trigger] last_of_key(o, i) ==> is_record(o[i].1, m[o[i].0])
}
pub open spec fn repodata_ok(j: J) -> bool {
    &&& fld(j, "info"@) matches Some(i) && str_field(i, "subdir"@)
    &&& fld(j, "packages"@) matches Some(p) && table_ok(p)
    &&& fld(j, "packages.conda"@) matches Some(p) && table_ok(p)
    &&& uint_field(j, "repodata_version"@, 0xff) && strs_field(j, "removed"@)
}
pub open spec fn is_repodata(j: J, r: Repodata) -> bool {
    &&& fld(j, "info"@) matches Some(i) && fld(i, "subdir"@) == Some(J::Str(r.info.subdir@))
    &&& fld(j, "packages"@) matches Some(p) && is_table(p, r.packages@)
    &&& fld(j, "packages.conda"@) matches Some(p) && is_table(p, r.packages_conda@)
    &&& fld(j, "repodata_version"@) == Some(J::Uint(r.repodata_version as nat))
    &&& fld(j, "removed"@) matches Some(v) && strs(v, r.removed@)
}
/// no array stands for a struct (serde would read its fields by position)
pub open spec fn named_table(j: J) -> bool { j matches J::Obj(o) ==> forall|i: int| 0 <= i < o.len() ==> !((#[trigger] o[i]).1 is Arr) }
pub open spec fn named(j: J) -> bool {
    !(j is Arr) && (fld(j, "info"@) matches Some(i) ==> !(i is Arr)) && (fld(j, "packages"@) matches Some(p) ==> named_table(p)) && (fld(j, "packages.conda"@) matches Some(p) ==> named_table(p))
}
/// C20: what loading the text of a file gives
pub open spec fn load_result(text: Option<Seq<char>>, r: Result<Repodata, VxJsonError>) -> bool {
    match r {
        Ok(d) => text matches Some(s) && json_text(s) matches Some(j) && (named(j) ==> repodata_ok(j) && is_repodata(j, d)),
        Err(_) => text matches Some(s) ==> (json_text(s) matches Some(j) ==> (named(j) ==> !repodata_ok(j))),
    }
}
}
