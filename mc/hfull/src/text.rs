//! Text views over a given string, made directly, so that only the code under test is judged.
use libxml::readonly::RoNode;
use llamapun::dnm::{DNMParameters, DNM};

/// A view of `text`; character `i` maps to `nodes[i % nodes.len()]` (no back map without nodes).
pub fn over(text: &str, nodes: &[RoNode]) -> DNM {
  let mut d = DNM { parameters: DNMParameters::default(), plaintext: text.to_string(), ..DNM::default() };
  let mut b = 0;
  for (i, c) in text.chars().enumerate() {
    d.byte_offsets.push(b);
    b += c.len_utf8();
    if !nodes.is_empty() {
      d.back_map.push((nodes[i % nodes.len()], i as i32));
    }
  }
  d.byte_offsets.push(b);
  if let Some(n) = nodes.first() {
    d.root_node = *n;
    d.node_map.insert(n.to_hashable(), (0, d.byte_offsets.len() - 1));
  }
  d
}
