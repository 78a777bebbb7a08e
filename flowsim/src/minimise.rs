//! Line-based minimisation of a failing program.

/// `test` returns whether the program still fails in the same way.
pub fn minimise(src: &str, mut test: impl FnMut(&str) -> bool, mut budget: usize) -> String {
  let mut lines: Vec<String> = src.lines().map(|s| s.to_string()).collect();
  let mut attempt = |cand: &[String], budget: &mut usize| -> bool {
    if *budget == 0 {
      return false;
    }
    *budget -= 1;
    test(&(cand.join("\n") + "\n"))
  };
  // matching close of a line that opens a block
  fn close(lines: &[String], i: usize) -> Option<usize> {
    if !lines[i].trim_end().ends_with(['{', '[']) {
      return None;
    }
    let ind = lines[i].len() - lines[i].trim_start().len();
    (i + 1 .. lines.len()).find(|j| {
      let l = &lines[*j];
      l.len() - l.trim_start().len() == ind && l.trim_start().starts_with(['}', ']'])
    })
  }
  loop {
    let before = lines.len();
    // whole blocks, outermost first, and unwrapping
    let mut i = lines.len();
    while i > 0 {
      i -= 1;
      if i >= lines.len() {
        continue;
      }
      if let Some(j) = close(&lines, i) {
        let mut cand = lines.clone();
        cand.drain(i ..= j);
        if attempt(&cand, &mut budget) {
          lines = cand;
          continue;
        }
        let mut cand = lines.clone();
        cand.remove(j);
        cand.remove(i);
        if attempt(&cand, &mut budget) {
          lines = cand;
          continue;
        }
      }
    }
    let mut size = (lines.len() / 2).max(1);
    loop {
      let mut i = lines.len();
      while i > 0 {
        let lo = i.saturating_sub(size);
        let mut cand = lines.clone();
        cand.drain(lo .. i);
        if attempt(&cand, &mut budget) {
          lines = cand;
        }
        i = lo;
      }
      if size == 1 {
        break;
      }
      size /= 2;
    }
    if lines.len() == before || budget == 0 {
      break;
    }
  }
  lines.join("\n") + "\n"
}
