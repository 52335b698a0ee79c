//! Relationship paths: a path between two occurrences exists exactly when relationships connect them, and is a shortest one.
use crate::rt::*;
use crate::testing::relation_mgr::RelationMgr;

#[no_mangle]
pub extern "C" fn h_path() {
    let n = param(0);
    let mut edge = vec![vec![false; n]; n];
    let mut list = vec![];
    for i in 0..n { for j in i + 1..n { if flag() { edge[i][j] = true; edge[j][i] = true; list.push((i, j)); } } }
    let mut mgr = RelationMgr::new();
    // relationships are added in either direction, in either order, and twice
    let (back, turn, again) = (flag(), flag(), flag());
    if back { list.reverse(); }
    for (i, j) in &list {
        let (x, y) = (*i * 3 + 1, *j * 3 + 1);
        if turn { mgr.add_relation(y, x); } else { mgr.add_relation(x, y); }
        if again { mgr.add_relation(y, x); }
    }
    // distances
    let from = choose(n);
    let mut dist = vec![usize::MAX; n];
    dist[from] = 0;
    for _ in 0..n { for i in 0..n { if dist[i] < usize::MAX { for j in 0..n { if edge[i][j] && dist[j] > dist[i] + 1 { dist[j] = dist[i] + 1; } } } } }
    for to in 0..n {
        match mgr.get_path(from * 3 + 1, to * 3 + 1) {
            None => check(dist[to] == usize::MAX, "connected occurrences have no path"),
            Some(p) => {
                check(dist[to] < usize::MAX, "a path between occurrences that no relationships connect");
                check(p[0] == from * 3 + 1 && p[p.len() - 1] == to * 3 + 1, "a path does not run between the two occurrences");
                for w in p.windows(2) { check(w[0] % 3 == 1 && w[1] % 3 == 1 && edge[w[0] / 3][w[1] / 3], "a path uses a relationship that does not exist"); }
                check(p.len() == dist[to] + 1, "a path is longer than necessary");
            }
        }
    }
    check(mgr.get_path(2, 1).is_none(), "a path from an occurrence without relationships");
    witness("end");
}
/// symbolic occurrence ids of any size
#[no_mangle]
pub extern "C" fn h_ids() {
    let v: Vec<usize> = (0..4).map(|i| { let d = one_of(b"\x00\x01\x02"); d as usize * 10 + i + if i == 3 { 1000 } else { 0 } }).collect();
    let mut mgr = RelationMgr::new();
    mgr.add_relation(v[0], v[1]);
    mgr.add_relation(v[2], v[1]);
    mgr.add_relation(v[2], v[3]);
    check(mgr.get_path(v[0], v[3]) == Some(vec![v[0], v[1], v[2], v[3]]), "the path along the relationships was not found");
    check(mgr.get_path(v[3], v[1]) == Some(vec![v[3], v[2], v[1]]), "the path along the relationships was not found");
    witness("end");
}
