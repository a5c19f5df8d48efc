verus! {
pub broadcast proof fn lem_de_strs(j: J, v: Vec<String>) ensures #[trigger] <Vec<String> as VxDe>::vx_de(j, v) == strs(j, v@) {}
pub broadcast proof fn lem_de_strs_ok(j: J) ensures #[trigger] <Vec<String> as VxDe>::vx_de_ok(j) == is_strs(j) {}
/// the declared structs, read by serde, are the records of the property
pub proof fn thm_c20_record(j: J, r: Record) requires !(j is Arr) ensures Record::vx_de(j, r) ==> is_record(j, r), Record::vx_de_ok(j) == record_ok(j) {
    broadcast use {lem_de_strs, lem_de_strs_ok};
}
pub proof fn lem_de_entry(o: Seq<(Seq<char>, J)>, i: int) requires 0 <= i < o.len() ensures exists|m: int| #[trigger] last_of_key(o, m) && o[m].0 == o[i].0 decreases o.len() - i {
    if !last_of_key(o, i) { let m = choose|m: int| i < m && is_key(o, o[i].0, m); lem_de_entry(o, m); }
}
pub proof fn thm_c20_table(j: J, m: VxMap<Record>) requires named_table(j) ensures <VxMap<Record> as VxDe>::vx_de(j, m) ==> is_table(j, m@), <VxMap<Record> as VxDe>::vx_de_ok(j) == table_ok(j) {
    if j is Obj {
        let o = j->Obj_0;
        assert forall|i: int| 0 <= i < o.len() implies Record::vx_de_ok((#[trigger] o[i]).1) == record_ok(o[i].1) by { thm_c20_record(o[i].1, arbitrary()); }
        if <VxMap<Record> as VxDe>::vx_de(j, m) {
            assert forall|i: int| #[trigger] last_of_key(o, i) implies is_record(o[i].1, m@[o[i].0]) by { thm_c20_record(o[i].1, m@[o[i].0]); }
        }
    }
}
pub proof fn thm_c20_repodata(j: J, r: Repodata) requires named(j) ensures Repodata::vx_de(j, r) ==> is_repodata(j, r), Repodata::vx_de_ok(j) == repodata_ok(j) {
    broadcast use {lem_de_strs, lem_de_strs_ok};
    if let Some(p) = fld(j, "packages"@) { thm_c20_table(p, r.packages); }
    if let Some(p) = fld(j, "packages.conda"@) { thm_c20_table(p, r.packages_conda); }
}
}
