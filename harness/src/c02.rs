//! C02 execution order of the node graph
use crate::sym;
use hexodsp::nodes::NodeGraphOrdering;
use hexodsp::NodeId;

fn id(i: usize) -> NodeId {
    match i { 0 => NodeId::Sin(0), 1 => NodeId::Amp(0), 2 => NodeId::Sin(1), 3 => NodeId::Out(0), 4 => NodeId::Mix3(7), _ => NodeId::Amp(255) }
}

fn reach(n: usize, m: &[[bool; 6]; 6]) -> [[bool; 6]; 6] {
    let mut r = *m;
    for k in 0..n { for i in 0..n { for j in 0..n { if r[i][k] && r[k][j] { r[i][j] = true; } } } }
    r
}

fn verify(g: &mut NodeGraphOrdering, n: usize, present: &[bool; 6], m: &[[bool; 6]; 6]) {
    let r = reach(n, m);
    let cyclic = (0..n).any(|i| r[i][i]);
    let mut out = vec![];
    let ok = g.calculate_order(&mut out);
    sym::check(ok == !cyclic, "an order exists exactly when the graph has no cycle");
    if !ok {
        sym::mark(2);
        sym::check(out.is_empty(), "no order is returned for a cyclic graph");
    } else {
        sym::mark(1);
        let cnt = (0..n).filter(|i| present[*i]).count();
        sym::check(out.len() == cnt, "the order has as many entries as there are nodes");
        let mut pos = [usize::MAX; 6];
        for i in 0..n {
            let c = out.iter().filter(|x| **x == id(i)).count();
            sym::check(c == present[i] as usize, "every node is in the order exactly once");
            if let Some(k) = out.iter().position(|x| *x == id(i)) { pos[i] = k; }
        }
        for i in 0..n { for j in 0..n { if m[i][j] { sym::check(pos[i] < pos[j], "a node is executed after the nodes it gets signals from"); } } }
    }
    for i in 0..n { for j in 0..n {
        if !present[i] || !present[j] { continue; }
        match g.has_path(id(i), id(j)) {
            Some(true) => sym::check(i == j || r[i][j], "a reported path exists"),
            Some(false) => sym::check(!(i == j || r[i][j]), "an existing path is not denied"),
            None => (),
        }
    } }
}

/// any graph over n nodes, nodes and edges added in any interleaving that adds the source first
pub fn h_c02_order() {
    let n = sym::param("n", 4) as usize;
    let maxe = sym::param("maxe", 99) as usize;
    let selfloop = sym::param("selfloop", 0) == 1;
    let mut m = [[false; 6]; 6];
    let mut present = [false; 6];
    let mut g = NodeGraphOrdering::new();
    let mut cnt = 0;
    for i in 0..n {
        g.add_node(id(i));
        present[i] = true;
        for j in 0..n {
            if i == j && !selfloop { continue; }
            if cnt >= maxe { continue; }
            if sym::bool("edge") {
                m[i][j] = true; present[j] = true; cnt += 1;
                g.add_edge(id(i), id(j));
            }
        }
    }
    verify(&mut g, n, &present, &m);
}

/// the same structure is reused for another graph after clear(); adding nodes and edges twice changes nothing
pub fn h_c02_reuse() {
    let n = 3;
    let full = sym::param("full", 0) == 1;
    let mut g = NodeGraphOrdering::new();
    for i in 0..n { g.add_node(id(i)); for j in 0..n { if i != j && (full || j == (i + 1) % n) && sym::bool("old") { g.add_edge(id(i), id(j)); } } }
    let mut o = vec![];
    g.calculate_order(&mut o);
    g.clear();
    let mut m = [[false; 6]; 6];
    let mut present = [false; 6];
    let rev = sym::choose("rev", 2) == 1;
    for k in 0..n {
        let i = if rev { n - 1 - k } else { k };
        if !sym::bool("node") { continue; }
        g.add_node(id(i)); present[i] = true;
        for j in 0..n { if i != j && sym::bool("new") { m[i][j] = true; present[j] = true; g.add_edge(id(i), id(j)); g.add_edge(id(i), id(j)); } }
    }
    for i in 0..n { if present[i] { g.add_node(id(i)); } }
    verify(&mut g, n, &present, &m);
}

/// one node with many successors (the same node may sit in many cells), which all feed one sink
pub fn h_c02_hub() {
    let k = sym::choose("successors", sym::param("max", 70) as usize + 1);
    let mut g = NodeGraphOrdering::new();
    let (hub, sink) = (NodeId::Sin(0), NodeId::Out(0));
    g.add_node(hub);
    for i in 0..k { g.add_edge(hub, NodeId::Amp(i as u8)); g.add_edge(NodeId::Amp(i as u8), sink); }
    let back = if k > 0 { sym::choose("back", 3) } else { 0 };
    if back == 1 { g.add_edge(NodeId::Amp(k as u8 - 1), hub); }
    if back == 2 { g.add_edge(sink, NodeId::Amp(0)); }
    let mut out = vec![];
    let ok = g.calculate_order(&mut out);
    sym::check(ok == (back == 0), "an order exists exactly when the graph has no cycle");
    if ok {
        sym::mark(1);
        sym::check(out.len() == if k == 0 { 1 } else { k + 2 }, "the order has as many entries as there are nodes");
        sym::check(out[0] == hub && (k == 0 || out[k + 1] == sink), "sources come first, sinks last");
        for i in 0..k { sym::check(out.iter().filter(|x| **x == NodeId::Amp(i as u8)).count() == 1, "every node is in the order exactly once"); }
    } else { sym::mark(2); }
}

/// a long chain of nodes with one extra edge
pub fn h_c02_chain() {
    let n = sym::param("n", 300) as usize;
    let nid = |i: usize| if i < 256 { NodeId::Sin(i as u8) } else { NodeId::Amp((i - 256) as u8) };
    let mut g = NodeGraphOrdering::new();
    for i in 0..n { g.add_node(nid(i)); }
    for i in (0..n - 1).rev() { g.add_edge(nid(i), nid(i + 1)); }
    let pick = [0, 1, 127, 128, 254, 255, 256, 257, n - 1];
    let (a, b) = (pick[sym::choose("a", 9)], pick[sym::choose("b", 9)]);
    g.add_edge(nid(a), nid(b));
    let mut out = vec![];
    let ok = g.calculate_order(&mut out);
    sym::check(ok == (a < b), "an order exists exactly when the graph has no cycle");
    if ok {
        sym::mark(1);
        sym::check(out.len() == n, "the order has as many entries as there are nodes");
        for i in 0..n { sym::check(out[i] == nid(i), "a node is executed after the nodes it gets signals from"); }
    } else { sym::mark(2); sym::check(out.is_empty(), "no order is returned for a cyclic graph"); }
}
