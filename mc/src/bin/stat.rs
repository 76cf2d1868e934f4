use mc::grammar::*;
fn main() {
    for &k in KINDS.iter().chain(&[K::Template, K::VarName]) {
        for iri in [false, true] {
            let t = std::time::Instant::now();
            let d = dfa(k, iri);
            let w = d.char_set();
            println!("{:14} iri={iri} states={} classes={} |W|={} {:?}", k.name(), d.n, d.nclass, w.len(), t.elapsed());
        }
    }
}
