verus! {
pub open spec fn op_of(o: Ordering) -> CompOp { match o { Ordering::Less => CompOp::Lt, Ordering::Equal => CompOp::Eq, Ordering::Greater => CompOp::Gt } }
pub open spec fn ord_of(c: CompOp) -> Option<Ordering> { match c { CompOp::Eq => Some(Ordering::Equal), CompOp::Lt => Some(Ordering::Less), CompOp::Gt => Some(Ordering::Greater), _ => None } }
}
