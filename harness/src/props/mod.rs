//! The properties: for each, the groups of generated cases that decide it.
use crate::engine::Group;
pub mod cli;
pub mod decode;
pub mod determinism;
pub mod pipeline;
pub mod robust;

pub struct Prop {
  pub id: &'static str,
  /// how cases are made and what makes one non-trivial
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  /// at most this many worker threads (0 = all)
  pub threads: usize,
  /// run in a build with and in one without overflow checks
  pub both_builds: bool,
  pub groups: fn() -> Vec<Group>,
}

pub fn all() -> Vec<Prop> {
  let mut v = vec![];
  v.extend(decode::props());
  v.extend(determinism::props());
  v.extend(pipeline::props());
  v.extend(robust::props());
  v.extend(cli::props());
  v
}

pub fn find(id: &str) -> Option<Prop> { all().into_iter().find(|p| p.id == id) }
