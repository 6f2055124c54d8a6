//! Stateless depth-first exploration: the driver is run once per path through its choice points.
#[derive(Default)]
pub struct Chooser {
    path: Vec<(usize, usize)>, // (taken, arity)
    at: usize,
}

impl Chooser {
    /// Branch n ways; every alternative is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if self.at == self.path.len() {
            self.path.push((0, n));
        }
        let (taken, arity) = self.path[self.at];
        // Replaying a prefix must see the same choice points: otherwise the driver is nondeterministic.
        assert!(arity == n, "MACHINERY: nondeterministic driver (arity {arity} became {n})");
        self.at += 1;
        taken
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn trace(&self) -> Vec<usize> {
        self.path.iter().take(self.at).map(|x| x.0).collect()
    }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
}

/// Runs `f` once for every path; returns the number of executions and of tree edges.
pub fn explore(mut f: impl FnMut(&mut Chooser)) -> Stats {
    let mut st = Stats::default();
    let mut c = Chooser::default();
    let mut fresh = 0usize;
    loop {
        c.at = 0;
        f(&mut c);
        assert!(c.at == c.path.len(), "MACHINERY: nondeterministic driver (path shorter than its prefix)");
        st.executions += 1;
        st.transitions += (c.path.len() - fresh) as u64;
        // backtrack
        loop {
            match c.path.pop() {
                None => return st,
                Some((t, n)) if t + 1 < n => {
                    c.path.push((t + 1, n));
                    fresh = c.path.len() - 1;
                    break;
                }
                _ => {}
            }
        }
    }
}
