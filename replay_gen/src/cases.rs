// generated by tools/mkgen.py: one case per macro form; arguments drawn at random, compared with the structure written out
use crate::rnd::*;
use driver_gen as d;
use dot_structures::*;
pub const N: usize = 123;
pub fn case(k: usize, r: &mut Rnd) -> (String, String, String) {
    match k {
        0 => {  (["id!()".to_string()].join("; "), format!("{:?}", d::id_none()), format!("{:?}", Id::Anonymous(String::new()))) }
        1 => { let e = r.disp(); (["id!(e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::id_plain(e.clone())), format!("{:?}", Id::Plain(e.to_string()))) }
        2 => { let e = r.disp(); (["id!(esc e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::id_esc(e.clone())), format!("{:?}", Id::Escaped(format!("\"{}\"", e)))) }
        3 => { let e = r.disp(); (["id!(html e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::id_html(e.clone())), format!("{:?}", Id::Html(e.to_string()))) }
        4 => {  (["port!()".to_string()].join("; "), format!("{:?}", d::port_none()), format!("{:?}", Port(None, None))) }
        5 => { let e = r.disp(); (["port!(, e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::port_dir(e.clone())), format!("{:?}", Port(None, Some(e.to_string())))) }
        6 => { let i = r.id(); let e = r.disp(); (["port!(i, e)".to_string(), format!("i = {:?}", i), format!("e = {:?}", e)].join("; "), format!("{:?}", d::port_both(i.clone(), e.clone())), format!("{:?}", Port(Some(i), Some(e.to_string())))) }
        7 => { let i = r.id(); (["port!(i)".to_string(), format!("i = {:?}", i)].join("; "), format!("{:?}", d::port_id(i.clone())), format!("{:?}", Port(Some(i), None))) }
        8 => {  (["node_id!()".to_string()].join("; "), format!("{:?}", d::node_id_none()), format!("{:?}", NodeId(Id::Anonymous(String::new()), None))) }
        9 => { let e = r.disp(); (["node_id!(e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::node_id_plain(e.clone())), format!("{:?}", NodeId(Id::Plain(e.to_string()), None))) }
        10 => { let e = r.disp(); let p = r.port(); (["node_id!(e, p)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p)].join("; "), format!("{:?}", d::node_id_plain_port(e.clone(), p.clone())), format!("{:?}", NodeId(Id::Plain(e.to_string()), Some(p)))) }
        11 => { let e = r.disp(); (["node_id!(esc e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::node_id_esc(e.clone())), format!("{:?}", NodeId(Id::Escaped(format!("\"{}\"", e)), None))) }
        12 => { let e = r.disp(); let p = r.port(); (["node_id!(esc e, p)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p)].join("; "), format!("{:?}", d::node_id_esc_port(e.clone(), p.clone())), format!("{:?}", NodeId(Id::Escaped(format!("\"{}\"", e)), Some(p)))) }
        13 => { let e = r.disp(); (["node_id!(html e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::node_id_html(e.clone())), format!("{:?}", NodeId(Id::Html(e.to_string()), None))) }
        14 => { let e = r.disp(); let p = r.port(); (["node_id!(html e, p)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p)].join("; "), format!("{:?}", d::node_id_html_port(e.clone(), p.clone())), format!("{:?}", NodeId(Id::Html(e.to_string()), Some(p)))) }
        15 => { let e = r.disp(); let v = r.disp(); (["attr!(e, v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attr_plain_plain(e.clone(), v.clone())), format!("{:?}", Attribute(Id::Plain(e.to_string()), Id::Plain(v.to_string())))) }
        16 => { let e = r.disp(); let v = r.disp(); (["attr!(e, esc v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attr_plain_esc(e.clone(), v.clone())), format!("{:?}", Attribute(Id::Plain(e.to_string()), Id::Escaped(format!("\"{}\"", v))))) }
        17 => { let e = r.disp(); let v = r.disp(); (["attr!(e, html v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attr_plain_html(e.clone(), v.clone())), format!("{:?}", Attribute(Id::Plain(e.to_string()), Id::Html(v.to_string())))) }
        18 => { let e = r.disp(); let v = r.disp(); (["attr!(esc e, v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attr_esc_plain(e.clone(), v.clone())), format!("{:?}", Attribute(Id::Escaped(format!("\"{}\"", e)), Id::Plain(v.to_string())))) }
        19 => { let e = r.disp(); let v = r.disp(); (["attr!(esc e, esc v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attr_esc_esc(e.clone(), v.clone())), format!("{:?}", Attribute(Id::Escaped(format!("\"{}\"", e)), Id::Escaped(format!("\"{}\"", v))))) }
        20 => { let e = r.disp(); let v = r.disp(); (["attr!(esc e, html v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attr_esc_html(e.clone(), v.clone())), format!("{:?}", Attribute(Id::Escaped(format!("\"{}\"", e)), Id::Html(v.to_string())))) }
        21 => { let e = r.disp(); let v = r.disp(); (["attr!(html e, v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attr_html_plain(e.clone(), v.clone())), format!("{:?}", Attribute(Id::Html(e.to_string()), Id::Plain(v.to_string())))) }
        22 => { let e = r.disp(); let v = r.disp(); (["attr!(html e, esc v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attr_html_esc(e.clone(), v.clone())), format!("{:?}", Attribute(Id::Html(e.to_string()), Id::Escaped(format!("\"{}\"", v))))) }
        23 => { let e = r.disp(); let v = r.disp(); (["attr!(html e, html v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attr_html_html(e.clone(), v.clone())), format!("{:?}", Attribute(Id::Html(e.to_string()), Id::Html(v.to_string())))) }
        24 => { let x = r.node(); (["stmt!(x)".to_string(), format!("x = {:?}", x)].join("; "), format!("{:?}", d::stmt_node(x.clone())), format!("{:?}", Stmt::Node(x))) }
        25 => { let x = r.edge(2); (["stmt!(x)".to_string(), format!("x = {:?}", x)].join("; "), format!("{:?}", d::stmt_edge(x.clone())), format!("{:?}", Stmt::Edge(x))) }
        26 => { let x = r.gattrs(); (["stmt!(x)".to_string(), format!("x = {:?}", x)].join("; "), format!("{:?}", d::stmt_gattribute(x.clone())), format!("{:?}", Stmt::GAttribute(x))) }
        27 => { let x = r.attr(); (["stmt!(x)".to_string(), format!("x = {:?}", x)].join("; "), format!("{:?}", d::stmt_attribute(x.clone())), format!("{:?}", Stmt::Attribute(x))) }
        28 => { let x = r.subgraph(2); (["stmt!(x)".to_string(), format!("x = {:?}", x)].join("; "), format!("{:?}", d::stmt_subgraph(x.clone())), format!("{:?}", Stmt::Subgraph(x))) }
        29 => {  (["subgraph!()".to_string()].join("; "), format!("{:?}", d::subgraph_none()), format!("{:?}", Subgraph { id: Id::Anonymous(String::new()), stmts: vec![] })) }
        30 => { let e = r.disp(); (["subgraph!(e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::subgraph_plain(e.clone())), format!("{:?}", Subgraph { id: Id::Plain(e.to_string()), stmts: vec![] })) }
        31 => { let e = r.disp(); let v = r.stmts(2); (["subgraph!(e, v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::subgraph_plain_vec(e.clone(), v.clone())), format!("{:?}", Subgraph { id: Id::Plain(e.to_string()), stmts: v })) }
        32 => { let e = r.disp(); let s1 = r.node(); (["subgraph!(e; s1)".to_string(), format!("e = {:?}", e), format!("s1 = {:?}", s1)].join("; "), format!("{:?}", d::subgraph_plain_1(e.clone(), s1.clone())), format!("{:?}", Subgraph { id: Id::Plain(e.to_string()), stmts: vec![Stmt::Node(s1)] })) }
        33 => { let e = r.disp(); let s1 = r.node(); let s2 = r.edge(2); let s3 = r.subgraph(2); (["subgraph!(e; s1, s2, s3)".to_string(), format!("e = {:?}", e), format!("s1 = {:?}", s1), format!("s2 = {:?}", s2), format!("s3 = {:?}", s3)].join("; "), format!("{:?}", d::subgraph_plain_3(e.clone(), s1.clone(), s2.clone(), s3.clone())), format!("{:?}", Subgraph { id: Id::Plain(e.to_string()), stmts: vec![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3)] })) }
        34 => { let e = r.disp(); let t1 = r.node(); let t2 = if r.below(6) == 0 { t1.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; let t3 = if r.below(6) == 0 { t2.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; (["subgraph!(e; t1, t2, t3)".to_string(), format!("e = {:?}", e), format!("t1 = {:?}", t1), format!("t2 = {:?}", t2), format!("t3 = {:?}", t3)].join("; "), format!("{:?}", d::subgraph_plain_same(e.clone(), t1.clone(), t2.clone(), t3.clone())), format!("{:?}", Subgraph { id: Id::Plain(e.to_string()), stmts: vec![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)] })) }
        35 => { let e = r.disp(); (["subgraph!(esc e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::subgraph_esc(e.clone())), format!("{:?}", Subgraph { id: Id::Escaped(format!("\"{}\"", e)), stmts: vec![] })) }
        36 => { let e = r.disp(); let v = r.stmts(2); (["subgraph!(esc e, v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::subgraph_esc_vec(e.clone(), v.clone())), format!("{:?}", Subgraph { id: Id::Escaped(format!("\"{}\"", e)), stmts: v })) }
        37 => { let e = r.disp(); let s1 = r.node(); (["subgraph!(esc e; s1)".to_string(), format!("e = {:?}", e), format!("s1 = {:?}", s1)].join("; "), format!("{:?}", d::subgraph_esc_1(e.clone(), s1.clone())), format!("{:?}", Subgraph { id: Id::Escaped(format!("\"{}\"", e)), stmts: vec![Stmt::Node(s1)] })) }
        38 => { let e = r.disp(); let s1 = r.node(); let s2 = r.edge(2); let s3 = r.subgraph(2); (["subgraph!(esc e; s1, s2, s3)".to_string(), format!("e = {:?}", e), format!("s1 = {:?}", s1), format!("s2 = {:?}", s2), format!("s3 = {:?}", s3)].join("; "), format!("{:?}", d::subgraph_esc_3(e.clone(), s1.clone(), s2.clone(), s3.clone())), format!("{:?}", Subgraph { id: Id::Escaped(format!("\"{}\"", e)), stmts: vec![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3)] })) }
        39 => { let e = r.disp(); let t1 = r.node(); let t2 = if r.below(6) == 0 { t1.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; let t3 = if r.below(6) == 0 { t2.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; (["subgraph!(esc e; t1, t2, t3)".to_string(), format!("e = {:?}", e), format!("t1 = {:?}", t1), format!("t2 = {:?}", t2), format!("t3 = {:?}", t3)].join("; "), format!("{:?}", d::subgraph_esc_same(e.clone(), t1.clone(), t2.clone(), t3.clone())), format!("{:?}", Subgraph { id: Id::Escaped(format!("\"{}\"", e)), stmts: vec![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)] })) }
        40 => { let e = r.disp(); (["subgraph!(html e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::subgraph_html(e.clone())), format!("{:?}", Subgraph { id: Id::Html(e.to_string()), stmts: vec![] })) }
        41 => { let e = r.disp(); let v = r.stmts(2); (["subgraph!(html e, v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::subgraph_html_vec(e.clone(), v.clone())), format!("{:?}", Subgraph { id: Id::Html(e.to_string()), stmts: v })) }
        42 => { let e = r.disp(); let s1 = r.node(); (["subgraph!(html e; s1)".to_string(), format!("e = {:?}", e), format!("s1 = {:?}", s1)].join("; "), format!("{:?}", d::subgraph_html_1(e.clone(), s1.clone())), format!("{:?}", Subgraph { id: Id::Html(e.to_string()), stmts: vec![Stmt::Node(s1)] })) }
        43 => { let e = r.disp(); let s1 = r.node(); let s2 = r.edge(2); let s3 = r.subgraph(2); (["subgraph!(html e; s1, s2, s3)".to_string(), format!("e = {:?}", e), format!("s1 = {:?}", s1), format!("s2 = {:?}", s2), format!("s3 = {:?}", s3)].join("; "), format!("{:?}", d::subgraph_html_3(e.clone(), s1.clone(), s2.clone(), s3.clone())), format!("{:?}", Subgraph { id: Id::Html(e.to_string()), stmts: vec![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3)] })) }
        44 => { let e = r.disp(); let t1 = r.node(); let t2 = if r.below(6) == 0 { t1.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; let t3 = if r.below(6) == 0 { t2.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; (["subgraph!(html e; t1, t2, t3)".to_string(), format!("e = {:?}", e), format!("t1 = {:?}", t1), format!("t2 = {:?}", t2), format!("t3 = {:?}", t3)].join("; "), format!("{:?}", d::subgraph_html_same(e.clone(), t1.clone(), t2.clone(), t3.clone())), format!("{:?}", Subgraph { id: Id::Html(e.to_string()), stmts: vec![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)] })) }
        45 => { let t1 = r.node(); let t2 = if r.below(6) == 0 { t1.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; let t3 = if r.below(6) == 0 { t2.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; (["subgraph!(; t1, t2, t3)".to_string(), format!("t1 = {:?}", t1), format!("t2 = {:?}", t2), format!("t3 = {:?}", t3)].join("; "), format!("{:?}", d::subgraph_anon_same(t1.clone(), t2.clone(), t3.clone())), format!("{:?}", Subgraph { id: Id::Anonymous(String::new()), stmts: vec![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)] })) }
        46 => { let u1 = r.attr(); let u2 = r.edge(2); let u3 = if r.below(6) == 0 { u1.clone() } else if r.below(8) == 0 { u1.clone() } else { r.attr() }; let u4 = if r.below(6) == 0 { u2.clone() } else if r.below(8) == 0 { u2.clone() } else { r.edge(2) }; (["subgraph!(; u1, u2, u3, u4)".to_string(), format!("u1 = {:?}", u1), format!("u2 = {:?}", u2), format!("u3 = {:?}", u3), format!("u4 = {:?}", u4)].join("; "), format!("{:?}", d::subgraph_anon_4(u1.clone(), u2.clone(), u3.clone(), u4.clone())), format!("{:?}", Subgraph { id: Id::Anonymous(String::new()), stmts: vec![Stmt::Attribute(u1), Stmt::Edge(u2), Stmt::Attribute(u3), Stmt::Edge(u4)] })) }
        47 => { let s1 = r.node(); (["subgraph!(; s1)".to_string(), format!("s1 = {:?}", s1)].join("; "), format!("{:?}", d::subgraph_anon_1(s1.clone())), format!("{:?}", Subgraph { id: Id::Anonymous(String::new()), stmts: vec![Stmt::Node(s1)] })) }
        48 => { let s1 = r.node(); let s2 = r.edge(2); let s3 = r.subgraph(2); let s4 = r.attr(); let s5 = r.gattrs(); (["subgraph!(; s1, s2, s3, s4, s5)".to_string(), format!("s1 = {:?}", s1), format!("s2 = {:?}", s2), format!("s3 = {:?}", s3), format!("s4 = {:?}", s4), format!("s5 = {:?}", s5)].join("; "), format!("{:?}", d::subgraph_anon_5(s1.clone(), s2.clone(), s3.clone(), s4.clone(), s5.clone())), format!("{:?}", Subgraph { id: Id::Anonymous(String::new()), stmts: vec![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3), Stmt::Attribute(s4), Stmt::GAttribute(s5)] })) }
        49 => {  (["attrs!()".to_string()].join("; "), format!("{:?}", d::attrs_none()), format!("{:?}", GraphAttributes::Graph(vec![]))) }
        50 => { let v = r.attrs(); (["attrs!(graph v)".to_string(), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attrs_graph_vec(v.clone())), format!("{:?}", GraphAttributes::Graph(v))) }
        51 => { let a1 = r.attr(); (["attrs!(graph; a1)".to_string(), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::attrs_graph_1(a1.clone())), format!("{:?}", GraphAttributes::Graph(vec![a1]))) }
        52 => { let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["attrs!(graph; a1, a2, a3)".to_string(), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::attrs_graph_3(a1.clone(), a2.clone(), a3.clone())), format!("{:?}", GraphAttributes::Graph(vec![a1, a2, a3]))) }
        53 => { let v = r.attrs(); (["attrs!(node v)".to_string(), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attrs_node_vec(v.clone())), format!("{:?}", GraphAttributes::Node(v))) }
        54 => { let a1 = r.attr(); (["attrs!(node; a1)".to_string(), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::attrs_node_1(a1.clone())), format!("{:?}", GraphAttributes::Node(vec![a1]))) }
        55 => { let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["attrs!(node; a1, a2, a3)".to_string(), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::attrs_node_3(a1.clone(), a2.clone(), a3.clone())), format!("{:?}", GraphAttributes::Node(vec![a1, a2, a3]))) }
        56 => { let v = r.attrs(); (["attrs!(edge v)".to_string(), format!("v = {:?}", v)].join("; "), format!("{:?}", d::attrs_edge_vec(v.clone())), format!("{:?}", GraphAttributes::Edge(v))) }
        57 => { let a1 = r.attr(); (["attrs!(edge; a1)".to_string(), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::attrs_edge_1(a1.clone())), format!("{:?}", GraphAttributes::Edge(vec![a1]))) }
        58 => { let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["attrs!(edge; a1, a2, a3)".to_string(), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::attrs_edge_3(a1.clone(), a2.clone(), a3.clone())), format!("{:?}", GraphAttributes::Edge(vec![a1, a2, a3]))) }
        59 => {  (["node!()".to_string()].join("; "), format!("{:?}", d::node_anon_none()), format!("{:?}", Node { id: NodeId(Id::Anonymous(String::new()), None), attributes: vec![] })) }
        60 => { let e = r.disp(); (["node!(e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::node_plain_none(e.clone())), format!("{:?}", Node { id: NodeId(Id::Plain(e.to_string()), None), attributes: vec![] })) }
        61 => { let e = r.disp(); let v = r.attrs(); (["node!(e, v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::node_plain_vec(e.clone(), v.clone())), format!("{:?}", Node { id: NodeId(Id::Plain(e.to_string()), None), attributes: v })) }
        62 => { let e = r.disp(); let p = r.port(); let v = r.attrs(); (["node!(e => p, v)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p), format!("v = {:?}", v)].join("; "), format!("{:?}", d::node_plain_port_vec(e.clone(), p.clone(), v.clone())), format!("{:?}", Node { id: NodeId(Id::Plain(e.to_string()), Some(p)), attributes: v })) }
        63 => { let e = r.disp(); let a1 = r.attr(); (["node!(e; a1)".to_string(), format!("e = {:?}", e), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::node_plain_1(e.clone(), a1.clone())), format!("{:?}", Node { id: NodeId(Id::Plain(e.to_string()), None), attributes: vec![a1] })) }
        64 => { let e = r.disp(); let p = r.port(); let a1 = r.attr(); (["node!(e => p; a1)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::node_plain_port_1(e.clone(), p.clone(), a1.clone())), format!("{:?}", Node { id: NodeId(Id::Plain(e.to_string()), Some(p)), attributes: vec![a1] })) }
        65 => { let e = r.disp(); let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["node!(e; a1, a2, a3)".to_string(), format!("e = {:?}", e), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::node_plain_3(e.clone(), a1.clone(), a2.clone(), a3.clone())), format!("{:?}", Node { id: NodeId(Id::Plain(e.to_string()), None), attributes: vec![a1, a2, a3] })) }
        66 => { let e = r.disp(); let p = r.port(); let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["node!(e => p; a1, a2, a3)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::node_plain_port_3(e.clone(), p.clone(), a1.clone(), a2.clone(), a3.clone())), format!("{:?}", Node { id: NodeId(Id::Plain(e.to_string()), Some(p)), attributes: vec![a1, a2, a3] })) }
        67 => { let e = r.disp(); (["node!(esc e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::node_esc_none(e.clone())), format!("{:?}", Node { id: NodeId(Id::Escaped(format!("\"{}\"", e)), None), attributes: vec![] })) }
        68 => { let e = r.disp(); let v = r.attrs(); (["node!(esc e, v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::node_esc_vec(e.clone(), v.clone())), format!("{:?}", Node { id: NodeId(Id::Escaped(format!("\"{}\"", e)), None), attributes: v })) }
        69 => { let e = r.disp(); let p = r.port(); let v = r.attrs(); (["node!(esc e => p, v)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p), format!("v = {:?}", v)].join("; "), format!("{:?}", d::node_esc_port_vec(e.clone(), p.clone(), v.clone())), format!("{:?}", Node { id: NodeId(Id::Escaped(format!("\"{}\"", e)), Some(p)), attributes: v })) }
        70 => { let e = r.disp(); let a1 = r.attr(); (["node!(esc e; a1)".to_string(), format!("e = {:?}", e), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::node_esc_1(e.clone(), a1.clone())), format!("{:?}", Node { id: NodeId(Id::Escaped(format!("\"{}\"", e)), None), attributes: vec![a1] })) }
        71 => { let e = r.disp(); let p = r.port(); let a1 = r.attr(); (["node!(esc e => p; a1)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::node_esc_port_1(e.clone(), p.clone(), a1.clone())), format!("{:?}", Node { id: NodeId(Id::Escaped(format!("\"{}\"", e)), Some(p)), attributes: vec![a1] })) }
        72 => { let e = r.disp(); let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["node!(esc e; a1, a2, a3)".to_string(), format!("e = {:?}", e), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::node_esc_3(e.clone(), a1.clone(), a2.clone(), a3.clone())), format!("{:?}", Node { id: NodeId(Id::Escaped(format!("\"{}\"", e)), None), attributes: vec![a1, a2, a3] })) }
        73 => { let e = r.disp(); let p = r.port(); let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["node!(esc e => p; a1, a2, a3)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::node_esc_port_3(e.clone(), p.clone(), a1.clone(), a2.clone(), a3.clone())), format!("{:?}", Node { id: NodeId(Id::Escaped(format!("\"{}\"", e)), Some(p)), attributes: vec![a1, a2, a3] })) }
        74 => { let e = r.disp(); (["node!(html e)".to_string(), format!("e = {:?}", e)].join("; "), format!("{:?}", d::node_html_none(e.clone())), format!("{:?}", Node { id: NodeId(Id::Html(e.to_string()), None), attributes: vec![] })) }
        75 => { let e = r.disp(); let v = r.attrs(); (["node!(html e, v)".to_string(), format!("e = {:?}", e), format!("v = {:?}", v)].join("; "), format!("{:?}", d::node_html_vec(e.clone(), v.clone())), format!("{:?}", Node { id: NodeId(Id::Html(e.to_string()), None), attributes: v })) }
        76 => { let e = r.disp(); let p = r.port(); let v = r.attrs(); (["node!(html e => p, v)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p), format!("v = {:?}", v)].join("; "), format!("{:?}", d::node_html_port_vec(e.clone(), p.clone(), v.clone())), format!("{:?}", Node { id: NodeId(Id::Html(e.to_string()), Some(p)), attributes: v })) }
        77 => { let e = r.disp(); let a1 = r.attr(); (["node!(html e; a1)".to_string(), format!("e = {:?}", e), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::node_html_1(e.clone(), a1.clone())), format!("{:?}", Node { id: NodeId(Id::Html(e.to_string()), None), attributes: vec![a1] })) }
        78 => { let e = r.disp(); let p = r.port(); let a1 = r.attr(); (["node!(html e => p; a1)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::node_html_port_1(e.clone(), p.clone(), a1.clone())), format!("{:?}", Node { id: NodeId(Id::Html(e.to_string()), Some(p)), attributes: vec![a1] })) }
        79 => { let e = r.disp(); let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["node!(html e; a1, a2, a3)".to_string(), format!("e = {:?}", e), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::node_html_3(e.clone(), a1.clone(), a2.clone(), a3.clone())), format!("{:?}", Node { id: NodeId(Id::Html(e.to_string()), None), attributes: vec![a1, a2, a3] })) }
        80 => { let e = r.disp(); let p = r.port(); let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["node!(html e => p; a1, a2, a3)".to_string(), format!("e = {:?}", e), format!("p = {:?}", p), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::node_html_port_3(e.clone(), p.clone(), a1.clone(), a2.clone(), a3.clone())), format!("{:?}", Node { id: NodeId(Id::Html(e.to_string()), Some(p)), attributes: vec![a1, a2, a3] })) }
        81 => { let l = r.node_id(); let m = r.subgraph(2); (["edge!(l => m)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m)].join("; "), format!("{:?}", d::edge_2(l.clone(), m.clone())), format!("{:?}", Edge { ty: EdgeTy::Pair(Vertex::N(l), Vertex::S(m)), attributes: vec![] })) }
        82 => { let l = r.node_id(); let m = r.subgraph(2); let v = r.attrs(); (["edge!(l => m, v)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("v = {:?}", v)].join("; "), format!("{:?}", d::edge_2_vec(l.clone(), m.clone(), v.clone())), format!("{:?}", Edge { ty: EdgeTy::Pair(Vertex::N(l), Vertex::S(m)), attributes: v })) }
        83 => { let l = r.node_id(); let m = r.subgraph(2); let a1 = r.attr(); (["edge!(l => m; a1)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::edge_2_1(l.clone(), m.clone(), a1.clone())), format!("{:?}", Edge { ty: EdgeTy::Pair(Vertex::N(l), Vertex::S(m)), attributes: vec![a1] })) }
        84 => { let l = r.node_id(); let m = r.subgraph(2); let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["edge!(l => m; a1, a2, a3)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::edge_2_3(l.clone(), m.clone(), a1.clone(), a2.clone(), a3.clone())), format!("{:?}", Edge { ty: EdgeTy::Pair(Vertex::N(l), Vertex::S(m)), attributes: vec![a1, a2, a3] })) }
        85 => { let w1 = r.node_id(); let w2 = if r.below(6) == 0 { w1.clone() } else if r.below(8) == 0 { w1.clone() } else { r.node_id() }; (["edge!(w1 => w2)".to_string(), format!("w1 = {:?}", w1), format!("w2 = {:?}", w2)].join("; "), format!("{:?}", d::edge_2_same(w1.clone(), w2.clone())), format!("{:?}", Edge { ty: EdgeTy::Pair(Vertex::N(w1), Vertex::N(w2)), attributes: vec![] })) }
        86 => { let w1 = r.node_id(); let w2 = if r.below(6) == 0 { w1.clone() } else if r.below(8) == 0 { w1.clone() } else { r.node_id() }; let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["edge!(w1 => w2; a1, a2)".to_string(), format!("w1 = {:?}", w1), format!("w2 = {:?}", w2), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2)].join("; "), format!("{:?}", d::edge_2_same_2(w1.clone(), w2.clone(), a1.clone(), a2.clone())), format!("{:?}", Edge { ty: EdgeTy::Pair(Vertex::N(w1), Vertex::N(w2)), attributes: vec![a1, a2] })) }
        87 => { let l = r.node_id(); let m = r.subgraph(2); let n = if r.below(6) == 0 { l.clone() } else if r.below(8) == 0 { l.clone() } else { r.node_id() }; (["edge!(l => m => n)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("n = {:?}", n)].join("; "), format!("{:?}", d::edge_3(l.clone(), m.clone(), n.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::N(l), Vertex::S(m), Vertex::N(n)]), attributes: vec![] })) }
        88 => { let l = r.node_id(); let m = r.subgraph(2); let n = if r.below(6) == 0 { l.clone() } else if r.below(8) == 0 { l.clone() } else { r.node_id() }; let v = r.attrs(); (["edge!(l => m => n, v)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("n = {:?}", n), format!("v = {:?}", v)].join("; "), format!("{:?}", d::edge_3_vec(l.clone(), m.clone(), n.clone(), v.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::N(l), Vertex::S(m), Vertex::N(n)]), attributes: v })) }
        89 => { let l = r.node_id(); let m = r.subgraph(2); let n = if r.below(6) == 0 { l.clone() } else if r.below(8) == 0 { l.clone() } else { r.node_id() }; let a1 = r.attr(); (["edge!(l => m => n; a1)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("n = {:?}", n), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::edge_3_1(l.clone(), m.clone(), n.clone(), a1.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::N(l), Vertex::S(m), Vertex::N(n)]), attributes: vec![a1] })) }
        90 => { let l = r.node_id(); let m = r.subgraph(2); let n = if r.below(6) == 0 { l.clone() } else if r.below(8) == 0 { l.clone() } else { r.node_id() }; let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["edge!(l => m => n; a1, a2, a3)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("n = {:?}", n), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::edge_3_3(l.clone(), m.clone(), n.clone(), a1.clone(), a2.clone(), a3.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::N(l), Vertex::S(m), Vertex::N(n)]), attributes: vec![a1, a2, a3] })) }
        91 => { let w1 = r.subgraph(2); let w2 = if r.below(6) == 0 { w1.clone() } else if r.below(8) == 0 { w1.clone() } else { r.subgraph(2) }; let w3 = if r.below(6) == 0 { w2.clone() } else if r.below(8) == 0 { w1.clone() } else { r.subgraph(2) }; (["edge!(w1 => w2 => w3)".to_string(), format!("w1 = {:?}", w1), format!("w2 = {:?}", w2), format!("w3 = {:?}", w3)].join("; "), format!("{:?}", d::edge_3_same(w1.clone(), w2.clone(), w3.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::S(w1), Vertex::S(w2), Vertex::S(w3)]), attributes: vec![] })) }
        92 => { let w1 = r.subgraph(2); let w2 = if r.below(6) == 0 { w1.clone() } else if r.below(8) == 0 { w1.clone() } else { r.subgraph(2) }; let w3 = if r.below(6) == 0 { w2.clone() } else if r.below(8) == 0 { w1.clone() } else { r.subgraph(2) }; let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["edge!(w1 => w2 => w3; a1, a2)".to_string(), format!("w1 = {:?}", w1), format!("w2 = {:?}", w2), format!("w3 = {:?}", w3), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2)].join("; "), format!("{:?}", d::edge_3_same_2(w1.clone(), w2.clone(), w3.clone(), a1.clone(), a2.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::S(w1), Vertex::S(w2), Vertex::S(w3)]), attributes: vec![a1, a2] })) }
        93 => { let l = r.node_id(); let m = r.subgraph(2); let n = if r.below(6) == 0 { l.clone() } else if r.below(8) == 0 { l.clone() } else { r.node_id() }; let o = if r.below(6) == 0 { m.clone() } else if r.below(8) == 0 { m.clone() } else { r.subgraph(2) }; (["edge!(l => m => n => o)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("n = {:?}", n), format!("o = {:?}", o)].join("; "), format!("{:?}", d::edge_4(l.clone(), m.clone(), n.clone(), o.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::N(l), Vertex::S(m), Vertex::N(n), Vertex::S(o)]), attributes: vec![] })) }
        94 => { let l = r.node_id(); let m = r.subgraph(2); let n = if r.below(6) == 0 { l.clone() } else if r.below(8) == 0 { l.clone() } else { r.node_id() }; let o = if r.below(6) == 0 { m.clone() } else if r.below(8) == 0 { m.clone() } else { r.subgraph(2) }; let v = r.attrs(); (["edge!(l => m => n => o, v)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("n = {:?}", n), format!("o = {:?}", o), format!("v = {:?}", v)].join("; "), format!("{:?}", d::edge_4_vec(l.clone(), m.clone(), n.clone(), o.clone(), v.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::N(l), Vertex::S(m), Vertex::N(n), Vertex::S(o)]), attributes: v })) }
        95 => { let l = r.node_id(); let m = r.subgraph(2); let n = if r.below(6) == 0 { l.clone() } else if r.below(8) == 0 { l.clone() } else { r.node_id() }; let o = if r.below(6) == 0 { m.clone() } else if r.below(8) == 0 { m.clone() } else { r.subgraph(2) }; let a1 = r.attr(); (["edge!(l => m => n => o; a1)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("n = {:?}", n), format!("o = {:?}", o), format!("a1 = {:?}", a1)].join("; "), format!("{:?}", d::edge_4_1(l.clone(), m.clone(), n.clone(), o.clone(), a1.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::N(l), Vertex::S(m), Vertex::N(n), Vertex::S(o)]), attributes: vec![a1] })) }
        96 => { let l = r.node_id(); let m = r.subgraph(2); let n = if r.below(6) == 0 { l.clone() } else if r.below(8) == 0 { l.clone() } else { r.node_id() }; let o = if r.below(6) == 0 { m.clone() } else if r.below(8) == 0 { m.clone() } else { r.subgraph(2) }; let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; let a3 = if r.below(6) == 0 { a2.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["edge!(l => m => n => o; a1, a2, a3)".to_string(), format!("l = {:?}", l), format!("m = {:?}", m), format!("n = {:?}", n), format!("o = {:?}", o), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2), format!("a3 = {:?}", a3)].join("; "), format!("{:?}", d::edge_4_3(l.clone(), m.clone(), n.clone(), o.clone(), a1.clone(), a2.clone(), a3.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::N(l), Vertex::S(m), Vertex::N(n), Vertex::S(o)]), attributes: vec![a1, a2, a3] })) }
        97 => { let w1 = r.node_id(); let w2 = if r.below(6) == 0 { w1.clone() } else if r.below(8) == 0 { w1.clone() } else { r.node_id() }; let w3 = if r.below(6) == 0 { w2.clone() } else if r.below(8) == 0 { w1.clone() } else { r.node_id() }; let w4 = if r.below(6) == 0 { w3.clone() } else if r.below(8) == 0 { w1.clone() } else { r.node_id() }; (["edge!(w1 => w2 => w3 => w4)".to_string(), format!("w1 = {:?}", w1), format!("w2 = {:?}", w2), format!("w3 = {:?}", w3), format!("w4 = {:?}", w4)].join("; "), format!("{:?}", d::edge_4_same(w1.clone(), w2.clone(), w3.clone(), w4.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::N(w1), Vertex::N(w2), Vertex::N(w3), Vertex::N(w4)]), attributes: vec![] })) }
        98 => { let w1 = r.node_id(); let w2 = if r.below(6) == 0 { w1.clone() } else if r.below(8) == 0 { w1.clone() } else { r.node_id() }; let w3 = if r.below(6) == 0 { w2.clone() } else if r.below(8) == 0 { w1.clone() } else { r.node_id() }; let w4 = if r.below(6) == 0 { w3.clone() } else if r.below(8) == 0 { w1.clone() } else { r.node_id() }; let a1 = r.attr(); let a2 = if r.below(6) == 0 { a1.clone() } else if r.below(8) == 0 { a1.clone() } else { r.attr() }; (["edge!(w1 => w2 => w3 => w4; a1, a2)".to_string(), format!("w1 = {:?}", w1), format!("w2 = {:?}", w2), format!("w3 = {:?}", w3), format!("w4 = {:?}", w4), format!("a1 = {:?}", a1), format!("a2 = {:?}", a2)].join("; "), format!("{:?}", d::edge_4_same_2(w1.clone(), w2.clone(), w3.clone(), w4.clone(), a1.clone(), a2.clone())), format!("{:?}", Edge { ty: EdgeTy::Chain(vec![Vertex::N(w1), Vertex::N(w2), Vertex::N(w3), Vertex::N(w4)]), attributes: vec![a1, a2] })) }
        99 => { let i = r.id(); (["graph!(i)".to_string(), format!("i = {:?}", i)].join("; "), format!("{:?}", d::graph_none(i.clone())), format!("{:?}", Graph::Graph { id: i, strict: false, stmts: vec![] })) }
        100 => { let i = r.id(); let v = r.stmts(2); (["graph!(i, v)".to_string(), format!("i = {:?}", i), format!("v = {:?}", v)].join("; "), format!("{:?}", d::graph_vec(i.clone(), v.clone())), format!("{:?}", Graph::Graph { id: i, strict: false, stmts: v })) }
        101 => { let i = r.id(); let s1 = r.node(); (["graph!(i; s1)".to_string(), format!("i = {:?}", i), format!("s1 = {:?}", s1)].join("; "), format!("{:?}", d::graph_1(i.clone(), s1.clone())), format!("{:?}", Graph::Graph { id: i, strict: false, stmts: vec![Stmt::Node(s1)] })) }
        102 => { let i = r.id(); let t1 = r.node(); let t2 = if r.below(6) == 0 { t1.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; let t3 = if r.below(6) == 0 { t2.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; (["graph!(i; t1, t2, t3)".to_string(), format!("i = {:?}", i), format!("t1 = {:?}", t1), format!("t2 = {:?}", t2), format!("t3 = {:?}", t3)].join("; "), format!("{:?}", d::graph_same(i.clone(), t1.clone(), t2.clone(), t3.clone())), format!("{:?}", Graph::Graph { id: i, strict: false, stmts: vec![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)] })) }
        103 => { let i = r.id(); let u1 = r.attr(); let u2 = r.edge(2); let u3 = if r.below(6) == 0 { u1.clone() } else if r.below(8) == 0 { u1.clone() } else { r.attr() }; let u4 = if r.below(6) == 0 { u2.clone() } else if r.below(8) == 0 { u2.clone() } else { r.edge(2) }; (["graph!(i; u1, u2, u3, u4)".to_string(), format!("i = {:?}", i), format!("u1 = {:?}", u1), format!("u2 = {:?}", u2), format!("u3 = {:?}", u3), format!("u4 = {:?}", u4)].join("; "), format!("{:?}", d::graph_4(i.clone(), u1.clone(), u2.clone(), u3.clone(), u4.clone())), format!("{:?}", Graph::Graph { id: i, strict: false, stmts: vec![Stmt::Attribute(u1), Stmt::Edge(u2), Stmt::Attribute(u3), Stmt::Edge(u4)] })) }
        104 => { let i = r.id(); let s1 = r.node(); let s2 = r.edge(2); let s3 = r.subgraph(2); let s4 = r.attr(); let s5 = r.gattrs(); (["graph!(i; s1, s2, s3, s4, s5)".to_string(), format!("i = {:?}", i), format!("s1 = {:?}", s1), format!("s2 = {:?}", s2), format!("s3 = {:?}", s3), format!("s4 = {:?}", s4), format!("s5 = {:?}", s5)].join("; "), format!("{:?}", d::graph_5(i.clone(), s1.clone(), s2.clone(), s3.clone(), s4.clone(), s5.clone())), format!("{:?}", Graph::Graph { id: i, strict: false, stmts: vec![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3), Stmt::Attribute(s4), Stmt::GAttribute(s5)] })) }
        105 => { let i = r.id(); (["graph!(di i)".to_string(), format!("i = {:?}", i)].join("; "), format!("{:?}", d::graph_di_none(i.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: false, stmts: vec![] })) }
        106 => { let i = r.id(); let v = r.stmts(2); (["graph!(di i, v)".to_string(), format!("i = {:?}", i), format!("v = {:?}", v)].join("; "), format!("{:?}", d::graph_di_vec(i.clone(), v.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: false, stmts: v })) }
        107 => { let i = r.id(); let s1 = r.node(); (["graph!(di i; s1)".to_string(), format!("i = {:?}", i), format!("s1 = {:?}", s1)].join("; "), format!("{:?}", d::graph_di_1(i.clone(), s1.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: false, stmts: vec![Stmt::Node(s1)] })) }
        108 => { let i = r.id(); let t1 = r.node(); let t2 = if r.below(6) == 0 { t1.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; let t3 = if r.below(6) == 0 { t2.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; (["graph!(di i; t1, t2, t3)".to_string(), format!("i = {:?}", i), format!("t1 = {:?}", t1), format!("t2 = {:?}", t2), format!("t3 = {:?}", t3)].join("; "), format!("{:?}", d::graph_di_same(i.clone(), t1.clone(), t2.clone(), t3.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: false, stmts: vec![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)] })) }
        109 => { let i = r.id(); let u1 = r.attr(); let u2 = r.edge(2); let u3 = if r.below(6) == 0 { u1.clone() } else if r.below(8) == 0 { u1.clone() } else { r.attr() }; let u4 = if r.below(6) == 0 { u2.clone() } else if r.below(8) == 0 { u2.clone() } else { r.edge(2) }; (["graph!(di i; u1, u2, u3, u4)".to_string(), format!("i = {:?}", i), format!("u1 = {:?}", u1), format!("u2 = {:?}", u2), format!("u3 = {:?}", u3), format!("u4 = {:?}", u4)].join("; "), format!("{:?}", d::graph_di_4(i.clone(), u1.clone(), u2.clone(), u3.clone(), u4.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: false, stmts: vec![Stmt::Attribute(u1), Stmt::Edge(u2), Stmt::Attribute(u3), Stmt::Edge(u4)] })) }
        110 => { let i = r.id(); let s1 = r.node(); let s2 = r.edge(2); let s3 = r.subgraph(2); let s4 = r.attr(); let s5 = r.gattrs(); (["graph!(di i; s1, s2, s3, s4, s5)".to_string(), format!("i = {:?}", i), format!("s1 = {:?}", s1), format!("s2 = {:?}", s2), format!("s3 = {:?}", s3), format!("s4 = {:?}", s4), format!("s5 = {:?}", s5)].join("; "), format!("{:?}", d::graph_di_5(i.clone(), s1.clone(), s2.clone(), s3.clone(), s4.clone(), s5.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: false, stmts: vec![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3), Stmt::Attribute(s4), Stmt::GAttribute(s5)] })) }
        111 => { let i = r.id(); (["graph!(strict i)".to_string(), format!("i = {:?}", i)].join("; "), format!("{:?}", d::graph_strict_none(i.clone())), format!("{:?}", Graph::Graph { id: i, strict: true, stmts: vec![] })) }
        112 => { let i = r.id(); let v = r.stmts(2); (["graph!(strict i, v)".to_string(), format!("i = {:?}", i), format!("v = {:?}", v)].join("; "), format!("{:?}", d::graph_strict_vec(i.clone(), v.clone())), format!("{:?}", Graph::Graph { id: i, strict: true, stmts: v })) }
        113 => { let i = r.id(); let s1 = r.node(); (["graph!(strict i; s1)".to_string(), format!("i = {:?}", i), format!("s1 = {:?}", s1)].join("; "), format!("{:?}", d::graph_strict_1(i.clone(), s1.clone())), format!("{:?}", Graph::Graph { id: i, strict: true, stmts: vec![Stmt::Node(s1)] })) }
        114 => { let i = r.id(); let t1 = r.node(); let t2 = if r.below(6) == 0 { t1.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; let t3 = if r.below(6) == 0 { t2.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; (["graph!(strict i; t1, t2, t3)".to_string(), format!("i = {:?}", i), format!("t1 = {:?}", t1), format!("t2 = {:?}", t2), format!("t3 = {:?}", t3)].join("; "), format!("{:?}", d::graph_strict_same(i.clone(), t1.clone(), t2.clone(), t3.clone())), format!("{:?}", Graph::Graph { id: i, strict: true, stmts: vec![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)] })) }
        115 => { let i = r.id(); let u1 = r.attr(); let u2 = r.edge(2); let u3 = if r.below(6) == 0 { u1.clone() } else if r.below(8) == 0 { u1.clone() } else { r.attr() }; let u4 = if r.below(6) == 0 { u2.clone() } else if r.below(8) == 0 { u2.clone() } else { r.edge(2) }; (["graph!(strict i; u1, u2, u3, u4)".to_string(), format!("i = {:?}", i), format!("u1 = {:?}", u1), format!("u2 = {:?}", u2), format!("u3 = {:?}", u3), format!("u4 = {:?}", u4)].join("; "), format!("{:?}", d::graph_strict_4(i.clone(), u1.clone(), u2.clone(), u3.clone(), u4.clone())), format!("{:?}", Graph::Graph { id: i, strict: true, stmts: vec![Stmt::Attribute(u1), Stmt::Edge(u2), Stmt::Attribute(u3), Stmt::Edge(u4)] })) }
        116 => { let i = r.id(); let s1 = r.node(); let s2 = r.edge(2); let s3 = r.subgraph(2); let s4 = r.attr(); let s5 = r.gattrs(); (["graph!(strict i; s1, s2, s3, s4, s5)".to_string(), format!("i = {:?}", i), format!("s1 = {:?}", s1), format!("s2 = {:?}", s2), format!("s3 = {:?}", s3), format!("s4 = {:?}", s4), format!("s5 = {:?}", s5)].join("; "), format!("{:?}", d::graph_strict_5(i.clone(), s1.clone(), s2.clone(), s3.clone(), s4.clone(), s5.clone())), format!("{:?}", Graph::Graph { id: i, strict: true, stmts: vec![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3), Stmt::Attribute(s4), Stmt::GAttribute(s5)] })) }
        117 => { let i = r.id(); (["graph!(strict di i)".to_string(), format!("i = {:?}", i)].join("; "), format!("{:?}", d::graph_strict_di_none(i.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: true, stmts: vec![] })) }
        118 => { let i = r.id(); let v = r.stmts(2); (["graph!(strict di i, v)".to_string(), format!("i = {:?}", i), format!("v = {:?}", v)].join("; "), format!("{:?}", d::graph_strict_di_vec(i.clone(), v.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: true, stmts: v })) }
        119 => { let i = r.id(); let s1 = r.node(); (["graph!(strict di i; s1)".to_string(), format!("i = {:?}", i), format!("s1 = {:?}", s1)].join("; "), format!("{:?}", d::graph_strict_di_1(i.clone(), s1.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: true, stmts: vec![Stmt::Node(s1)] })) }
        120 => { let i = r.id(); let t1 = r.node(); let t2 = if r.below(6) == 0 { t1.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; let t3 = if r.below(6) == 0 { t2.clone() } else if r.below(8) == 0 { t1.clone() } else { r.node() }; (["graph!(strict di i; t1, t2, t3)".to_string(), format!("i = {:?}", i), format!("t1 = {:?}", t1), format!("t2 = {:?}", t2), format!("t3 = {:?}", t3)].join("; "), format!("{:?}", d::graph_strict_di_same(i.clone(), t1.clone(), t2.clone(), t3.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: true, stmts: vec![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)] })) }
        121 => { let i = r.id(); let u1 = r.attr(); let u2 = r.edge(2); let u3 = if r.below(6) == 0 { u1.clone() } else if r.below(8) == 0 { u1.clone() } else { r.attr() }; let u4 = if r.below(6) == 0 { u2.clone() } else if r.below(8) == 0 { u2.clone() } else { r.edge(2) }; (["graph!(strict di i; u1, u2, u3, u4)".to_string(), format!("i = {:?}", i), format!("u1 = {:?}", u1), format!("u2 = {:?}", u2), format!("u3 = {:?}", u3), format!("u4 = {:?}", u4)].join("; "), format!("{:?}", d::graph_strict_di_4(i.clone(), u1.clone(), u2.clone(), u3.clone(), u4.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: true, stmts: vec![Stmt::Attribute(u1), Stmt::Edge(u2), Stmt::Attribute(u3), Stmt::Edge(u4)] })) }
        122 => { let i = r.id(); let s1 = r.node(); let s2 = r.edge(2); let s3 = r.subgraph(2); let s4 = r.attr(); let s5 = r.gattrs(); (["graph!(strict di i; s1, s2, s3, s4, s5)".to_string(), format!("i = {:?}", i), format!("s1 = {:?}", s1), format!("s2 = {:?}", s2), format!("s3 = {:?}", s3), format!("s4 = {:?}", s4), format!("s5 = {:?}", s5)].join("; "), format!("{:?}", d::graph_strict_di_5(i.clone(), s1.clone(), s2.clone(), s3.clone(), s4.clone(), s5.clone())), format!("{:?}", Graph::DiGraph { id: i, strict: true, stmts: vec![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3), Stmt::Attribute(s4), Stmt::GAttribute(s5)] })) }
        _ => unreachable!(),
    }
}
