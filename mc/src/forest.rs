//! Exhaustive enumeration of labelled ordered forests (the shape of a template: siblings, nesting).

/// Preorder list of (depth, label).
pub type Forest = Vec<(u8, u8)>;

/// All forests with exactly `n` nodes; `leaf[l]`: a node with label `l` has no children.
/// At most `max_depth` levels. `f` is called once per forest.
pub fn forests(n: usize, leaf: &[bool], max_depth: usize, f: &mut dyn FnMut(&Forest)) {
    fn go(n: usize, cur: &mut Forest, leaf: &[bool], max_depth: usize, f: &mut dyn FnMut(&Forest)) {
        if cur.len() == n {
            return f(cur);
        }
        let deepest = match cur.last() {
            None => 0,
            Some((d, l)) if leaf[*l as usize] => *d as usize,
            Some((d, _)) => *d as usize + 1,
        };
        for d in 0..=deepest.min(max_depth - 1) {
            for l in 0..leaf.len() {
                cur.push((d as u8, l as u8));
                go(n, cur, leaf, max_depth, f);
                cur.pop();
            }
        }
    }
    go(n, &mut vec![], leaf, max_depth, f);
}

/// Calls `open(i)` / `close(i)` for the nodes of the forest in document order.
pub fn walk(fo: &Forest, mut f: impl FnMut(bool, usize)) {
    let mut stack: Vec<usize> = vec![];
    for (i, (d, _)) in fo.iter().enumerate() {
        while stack.len() > *d as usize {
            f(false, stack.pop().unwrap());
        }
        f(true, i);
        stack.push(i);
    }
    while let Some(i) = stack.pop() {
        f(false, i);
    }
}
