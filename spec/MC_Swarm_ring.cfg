SPECIFICATION Spec
CONSTANTS Iters = 1
          Ring = TRUE
INVARIANTS BestIsMin OwnBest SomeLeader Bounded
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE
