use eden_dag::namedag::MemNameDag;
use eden_dag::ops::*;
use eden_dag::{DagAlgorithm, Group, VertexListWithOptions, VertexName, VertexOptions};
pub fn memdag() {
    let mut d = MemNameDag::new();
    let v = |i: u8| { let mut b = [0x5au8; 20]; b[1] = i; VertexName::copy_from(&b) };
    let parents: std::collections::HashMap<VertexName, Vec<VertexName>> =
        [(v(0), vec![]), (v(1), vec![v(0)]), (v(2), vec![v(1)]), (v(3), vec![v(1)]), (v(4), vec![v(3)])].into_iter().collect();
    futures::executor::block_on(async {
        let mut mo = VertexOptions::default();
        mo.highest_group = Group::MASTER;
        let heads = vec![(v(1), mo), (v(2), VertexOptions::default()), (v(4), VertexOptions::default())];
        d.add_heads(&parents, &VertexListWithOptions::from(heads)).await.unwrap();
        crate::sym::log("built");
        let s = eden_dag::NameSet::from_static_names(vec![v(4), v(2)]);
        let a = d.ancestors(s).await.unwrap();
        let n = a.count().await.unwrap();
        crate::sym::check(n == 5, "ancestors");
        crate::sym::log("ancestors");
        let r = d.range(v(1).into(), v(4).into()).await.unwrap();
        let n = r.count().await.unwrap();
        crate::sym::check(n == 3, "range");
        crate::sym::log("range");
    });
}
