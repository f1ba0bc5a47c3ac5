//! Exhaustive enumeration of the random decisions of the code under test (see vendor/rand).
use rand::controlled;

pub struct RunStats {
    pub runs: u64,
    pub decisions: u64,
    /// runs cut because they needed more decisions than the bound
    pub cut: u64,
}

/// Runs `f` once per sequence of random decisions (depth-first), at most `max_len` decisions per run.
/// `f` gets the index of the run. Stops early on the first Err.
pub fn all_choices<E>(max_len: usize, grid: usize, max_runs: u64,
                      f: impl FnMut(u64) -> Result<(), E>) -> (RunStats, Result<(), E>) {
    all_choices_under(&[], max_len, grid, max_runs, f)
}

/// The same below the first decisions given. Runs that never come to those decisions belong to the
/// all-zero prefix; decisions beyond the number of alternatives have no run at all.
pub fn all_choices_under<E>(prefix: &[u64], max_len: usize, grid: usize, max_runs: u64,
                            mut f: impl FnMut(u64) -> Result<(), E>) -> (RunStats, Result<(), E>) {
    let mut script: Vec<u64> = prefix.to_vec();
    let mut st = RunStats { runs: 0, decisions: 0, cut: 0 };
    loop {
        controlled::install(script.clone(), max_len, grid);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(st.runs)));
        let trail = controlled::take();
        let outside = prefix.iter().enumerate().any(|(k, v)| trail.get(k).map(|x| x.0).unwrap_or(0) != *v);
        if outside && !matches!(r, Err(_)) {
            return (st, Ok(()));
        }
        st.runs += 1;
        st.decisions += trail.len() as u64;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return (st, Err(e)),
            Err(p) => {
                if p.downcast_ref::<controlled::TooManyChoices>().is_some() {
                    st.cut += 1;
                } else {
                    std::panic::resume_unwind(p);
                }
            }
        }
        if st.runs >= max_runs {
            panic!("decision tree larger than the declared bound of {} runs", max_runs);
        }
        // next script in depth-first order
        let mut t = trail;
        loop {
            match t.pop() {
                None => return (st, Ok(())),
                Some((v, n)) => {
                    if t.len() < prefix.len() {
                        return (st, Ok(()));
                    }
                    if v + 1 < n {
                        script = t.iter().map(|x| x.0).collect();
                        script.push(v + 1);
                        break;
                    }
                }
            }
        }
    }
}
