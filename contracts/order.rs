verus! {
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

/// C07: post > release > ordinary > dev
pub open spec fn text_cmp(a: Seq<char>, b: Seq<char>) -> Ordering {
    if has_ci(a, "post"@) || has_ci(b, "post"@) {
        if has_ci(a, "post"@) && has_ci(b, "post"@) { Ordering::Equal } else if has_ci(a, "post"@) { Ordering::Greater } else { Ordering::Less }
    } else if a.len() == 0 || b.len() == 0 {
        if a.len() == 0 && b.len() == 0 { Ordering::Equal } else if a.len() == 0 { Ordering::Greater } else { Ordering::Less }
    } else if has_ci(a, "dev"@) || has_ci(b, "dev"@) {
        if has_ci(a, "dev"@) && has_ci(b, "dev"@) { Ordering::Equal } else if has_ci(a, "dev"@) { Ordering::Less } else { Ordering::Greater }
    } else { lex(fold(a), fold(b)) }
}
/// C08: the ranking of kinds
pub open spec fn rank(p: PV) -> int { match p { PV::Epoch(_) => 4, PV::Int(_) => 3, PV::Lex(_) => 2, PV::Text(_) => 1, PV::Empty => 0 } }
pub open spec fn pcmp(a: PV, b: PV) -> Ordering {
    match (a, b) {
        (PV::Epoch(x), PV::Epoch(y)) => icmp(x, y),
        (PV::Int(x), PV::Int(y)) => icmp(x, y),
        (PV::Lex(x), PV::Lex(y)) => lex(x, y),
        (PV::Text(x), PV::Text(y)) => text_cmp(x, y),
        _ => icmp(rank(a), rank(b)),
    }
}
pub open spec fn zero(p: PV) -> PV { match p { PV::Epoch(_) => PV::Epoch(0), PV::Int(_) => PV::Int(0), PV::Lex(_) => PV::Lex(Seq::empty()), PV::Text(_) => PV::Text(Seq::empty()), PV::Empty => PV::Empty } }

/// C04: component by component; a missing component counts as the zero of the other's kind
pub open spec fn head_cmp(a: Seq<PV>, b: Seq<PV>) -> Ordering {
    if a.len() > 0 && b.len() > 0 { pcmp(a[0], b[0]) } else if a.len() > 0 { pcmp(a[0], zero(a[0])) } else if b.len() > 0 { pcmp(zero(b[0]), b[0]) } else { Ordering::Equal }
}
pub open spec fn tl(a: Seq<PV>) -> Seq<PV> { if a.len() > 0 { a.drop_first() } else { a } }
pub open spec fn vcmp(a: Seq<PV>, b: Seq<PV>) -> Ordering decreases a.len() + b.len() {
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if head_cmp(a, b) != Ordering::Equal { head_cmp(a, b) }
    else { vcmp(tl(a), tl(b)) }
}
/// C09: component prefix
pub open spec fn starts(a: Seq<PV>, b: Seq<PV>) -> bool {
    b.len() <= a.len() && forall|i: int| 0 <= i < b.len() ==> pcmp(#[trigger] a[i], b[i]) == Ordering::Equal
}
pub open spec fn covered_op(op: CompOp) -> bool { !(op is Compatible) && !(op is Incompatible) }
/// C06: what an operator means
pub open spec fn holds(op: CompOp, a: Seq<PV>, b: Seq<PV>) -> bool {
    match op {
        CompOp::Eq => vcmp(a, b) == Ordering::Equal,
        CompOp::Ne => vcmp(a, b) != Ordering::Equal,
        CompOp::Lt => vcmp(a, b) == Ordering::Less,
        CompOp::Le => vcmp(a, b) != Ordering::Greater,
        CompOp::Gt => vcmp(a, b) == Ordering::Greater,
        CompOp::Ge => vcmp(a, b) != Ordering::Less,
        CompOp::StartsWith => starts(a, b),
        CompOp::NotStartsWith => !starts(a, b),
        _ => false,
    }
}
}
verus! {
pub open spec fn starts_r(a: Seq<PV>, b: Seq<PV>) -> bool decreases b.len() {
    if b.len() == 0 { true } else if a.len() == 0 { false } else { pcmp(a[0], b[0]) == Ordering::Equal && starts_r(a.drop_first(), b.drop_first()) }
}
pub proof fn lem_starts(a: Seq<PV>, b: Seq<PV>) ensures starts_r(a, b) == starts(a, b) decreases b.len() {
    if b.len() > 0 && a.len() > 0 {
        lem_starts(a.drop_first(), b.drop_first());
        if starts(a.drop_first(), b.drop_first()) && pcmp(a[0], b[0]) == Ordering::Equal {
            assert forall|i: int| 0 <= i < b.len() implies pcmp(#[trigger] a[i], b[i]) == Ordering::Equal by {
                if i > 0 { assert(a.drop_first()[i - 1] == a[i]); assert(b.drop_first()[i - 1] == b[i]); }
            }
        }
        if starts(a, b) {
            assert(pcmp(a[0], b[0]) == Ordering::Equal);
            assert forall|i: int| 0 <= i < b.len() - 1 implies pcmp(#[trigger] a.drop_first()[i], b.drop_first()[i]) == Ordering::Equal by { assert(pcmp(a[i + 1], b[i + 1]) == Ordering::Equal); }
        }
    }
}
}
