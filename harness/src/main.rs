mod conv;
mod forest;
mod garble;
mod gen;
mod help;
mod proto;
mod receiver;
mod world;
use forest::{Forest, Trie};
use serde_json::Value;

fn replay(f: &mut Forest, evs: &[Value], t: &Trie, w: &world::World, par: i64) {
    for (i, sub) in &t.0 {
        let mut w2 = w.clone();
        let Some((e, o)) = f.attempt(|| w2.step(&evs[*i])) else { continue };
        let id = f.add(par, "spec", e, o);
        replay(f, evs, sub, &w2, id);
    }
}

fn main() {
    forest::main_with(|a, f| {
        for (evs, t) in &a.scripts {
            replay(f, evs, t, &world::World::new(), -1);
        }
        if let Some(evs) = &a.replay {
            let mut w = world::World::new();
            let mut par = -1;
            for e in evs {
                let (e, o) = w.step(e);
                par = f.add(par, "replay", e, o);
            }
        }
        for (p, chains, len) in &a.random {
            let prof = gen::profile(p);
            for c in 0..*chains {
                let mut r = forest::rng_for(a.seed, p, c);
                let long = prof.long || (c % if prof.ctr > 50 { 48 } else { 12 } == 11 && *len >= 30);
                let prof = if long { gen::marathon(&mut r, &prof) } else { gen::swarm(&mut r, &prof) };
                let len = if long { len * 3 } else { *len };
                let mut w = world::World::new();
                let Some((e, o)) = f.attempt(|| w.step(&gen::root(&mut r, &prof))) else { continue };
                let mut par = f.add(-1, "random", e, o);
                if !w.exists {
                    continue;
                }
                for _ in 0..len {
                    let Some(Some((e, o))) = f.attempt(|| gen::event(&mut r, &prof, &w).map(|e| w.step(&e))) else { break };
                    par = f.add(par, "random", e, o);
                }
                for i in 0..8 {
                    if !prof.probe || w.chans.len() > 13 {
                        break;
                    }
                    if let Some(Some((e, o))) = f.attempt(|| gen::probe(i, &w).map(|e| w.step(&e))) {
                        par = f.add(par, "probe", e, o);
                    }
                }
            }
        }
        receiver::own_messages_work().to_string()
    });
}
