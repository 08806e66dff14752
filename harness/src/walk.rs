//! Walks through a state graph printed by TLC (lines `from|position|to`, the first line the
//! initial state) that together take every transition: an untaken transition of the current state
//! first, in a seeded order, else the way to the nearest state that has one.
use crate::rng::Rng;
use std::collections::{HashMap, VecDeque};

pub fn walks(text: &str, seed: u64, maxlen: usize, budget: usize) -> (Vec<Vec<usize>>, usize, usize) {
    let mut ids: HashMap<&str, usize> = HashMap::new();
    let mut adj: Vec<Vec<(usize, usize)>> = vec![];
    let mut node = |s, adj: &mut Vec<Vec<(usize, usize)>>| -> usize {
        *ids.entry(s).or_insert_with(|| {
            adj.push(vec![]);
            adj.len() - 1
        })
    };
    let mut lines = text.lines();
    let init = node(lines.next().unwrap(), &mut adj);
    let mut todo = 0;
    for l in lines {
        let f: Vec<&str> = l.split('|').collect();
        let (a, b) = (node(f[0], &mut adj), node(f[2], &mut adj));
        adj[a].push((f[1].parse().unwrap(), b));
        todo += 1;
    }
    let edges = todo;
    let mut rng = Rng::new(seed);
    let mut left = adj.clone();
    for l in left.iter_mut() {
        for i in (1..l.len()).rev() {
            l.swap(i, rng.below(i + 1));
        }
    }
    // a budget that cannot reach every transition is spread over the whole graph: all transitions of some states
    if edges * 5 / 2 > budget {
        let keep = budget.min(1 << 40) * 1000 / (edges * 2).max(1);
        for l in left.iter_mut() {
            if rng.below(1000) >= keep {
                todo -= l.len();
                l.clear();
            }
        }
    }
    let dropped = edges - todo;
    let (mut out, mut total) = (vec![], 0);
    let mut seen = vec![0usize; adj.len()];
    let mut prev = vec![(0usize, 0usize); adj.len()];
    let mut stamp = 0;
    while todo > 0 && total < budget {
        let (mut cur, mut w) = (init, vec![]);
        let mut fresh = 0;
        while w.len() < maxlen {
            if let Some((i, b)) = left[cur].pop() {
                todo -= 1;
                fresh += 1;
                w.push(i);
                cur = b;
                continue;
            }
            // nearest state with an untaken transition
            stamp += 1;
            let mut q = VecDeque::from([(cur, 0)]);
            seen[cur] = stamp;
            let mut goal = None;
            'bfs: while let Some((a, d)) = q.pop_front() {
                if d + w.len() + 1 > maxlen && !w.is_empty() {
                    continue;
                }
                for &(i, b) in &adj[a] {
                    if seen[b] != stamp {
                        seen[b] = stamp;
                        prev[b] = (a, i);
                        if !left[b].is_empty() {
                            goal = Some(b);
                            break 'bfs;
                        }
                        q.push_back((b, d + 1));
                    }
                }
            }
            let Some(mut g) = goal else { break };
            let end = g;
            let mut p = vec![];
            while g != cur {
                p.push(prev[g].1);
                g = prev[g].0;
            }
            w.extend(p.iter().rev());
            cur = end;
        }
        if fresh == 0 {
            break;
        }
        total += w.len();
        out.push(w);
    }
    (out, edges, todo + dropped)
}
