t("C01", "explicit-state exploration of a reference automaton of the wire grammar, every transition replayed on the real parser, plus bounded-exhaustive inputs", "model_checking",
  "Every input of the stated bounds is executed on the real parser and compared with an independent automaton; inputs lie against inaccessible pages. Assumes 64-bit usize.")
t("C02 C03 C22", "bounded-exhaustive enumeration of messages/byte strings on the real code against an independent renderer/reader", "exploration",
  "All messages and buffers within the stated bounds are executed on the real code; nothing is sampled. Trusts the small reference renderer in refs.rs.")
t("C04 C05", "bounded-exhaustive enumeration of values and strings on the real code against independent grammars", "exploration",
  "All values and strings within the stated bounds are executed on the real code; nothing is sampled. Trusts the small reference definitions.")
t("C06 C08", "bounded-exhaustive enumeration of identifier sets with all pairwise relations checked on the real code", "exploration",
  "All pairs within the index windows and ID universes are decided on the real code.")
t("C07", "bounded-exhaustive enumeration of field combinations and argument lists on the real code against independent grammars", "exploration",
  "All field combinations/argument lists of the stated menus are executed on the real code.")
t("C10", "bounded-exhaustive exploration of all ways to cut streams into reads, executed on the real Connection, handlers and receive buffer", "model_checking",
  "All cuts of the enumerated streams are covered (directly, or by induction over the complete compared state); streams are bounded.")
t("C11 C12 C14", "bounded-exhaustive exploration of message sequences on the real Connection and handlers, in lockstep with a reference server (every step compared)", "model_checking",
  "All sequences of the stated menus and bounds are executed; trusts the reference server in h-conn/src/model.rs. Runs with an in-memory dispatch; the real tokio dispatch is covered by C15-C19 and C25.")
t("C13", "explicit-state model checking of client lifetimes (thorough: to a fixpoint), every transition replayed on the real code from the initial state", "model_checking",
  "Every transition of the reference server's state space within the bounds is replayed on the real Connection and handlers and compared.")
t("C15 C16 C17 C19 C25", "stateless model checking of the real tokio dispatch, receiver and transmitter under a controlled scheduler (delay-bounded enumeration of schedules, short reads/writes and I/O errors)", "model_checking",
  "All schedules within the stated number of deviations from five policies are executed on the implementation itself; tokio's executor and sockets are replaced by controlled ones, its channels and notifications are real.")
t("C18", "stateless model checking of the real tokio dispatch under a controlled scheduler with deadlock, livelock and panic detection, plus bounded-exhaustive large inputs on a small stack", "model_checking",
  "All schedules within the stated number of deviations from five policies are executed on the implementation itself, with every pair of repeated input units in each connection mode.")
t("C09", "exhaustive fault enumeration on the real code: all entropy-source answer sequences (short, interrupted, failing) with per-bit dependence of every secret decided by flipping each drawn bit", "fault_enumeration",
  "getrandom, getentropy and the entropy devices are interposed at the C library boundary; every drawn bit is flipped under every enumerated answer sequence. Injectivity is decided for all bit pairs (thorough: triples), not all 2^192 values.")
t("C20", "exhaustive fault enumeration on the real code: all read fragmentations, interruptions and errors within bounds on real file descriptors, against an independent parser", "fault_enumeration",
  "Every enumerated descriptor kind, content and read schedule is executed on the real discovery; trusts the small reference parser.")
t("C21", "exhaustive enumeration of environment and file-system configurations (with a racing process) executed on the real code in a scratch directory, file system compared before and after", "exploration",
  "The whole product of the stated configurations is executed.")
t("C24", "bounded-exhaustive differential exploration: both feature configurations of the same sources linked into one program, every enumerated API call executed in both and compared", "exploration",
  "All inputs within the stated bounds are executed in both configurations; the no_std configuration is compiled for the host.")
t("C23", "explicit-state model checking of the protocol as seen by clients, every transition replayed on the program's real main() under a controlled scheduler, stateless exploration of racing clients, and model paths replayed on the real process over real sockets", "model_checking",
  "All transitions of the model's reachable states within the bounds and all schedules of the racing scenarios within the stated number of deviations are executed on the implementation; a part of the paths also on the unmodified program with the real tokio.")
