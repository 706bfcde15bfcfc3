------------------------------- MODULE PkgDefs -------------------------------
(* Packages of a host: inst is the set of installed packages, o a request     *)
(* [packages (set), present]. "~" means: not given.                           *)
EXTENDS Naturals, Sequences, FiniteSets
Needed(inst, o) == IF o.present THEN o.packages \ inst ELSE o.packages \cap inst
Want(inst, o) == IF o.present THEN inst \cup o.packages ELSE inst \ o.packages
Verb(o) == IF o.present THEN "install" ELSE "remove"
\* a package manager has to be there, and packages have to exist to be installed
Managers == [apt |-> "apt-get", pacman |-> "pacman", portage |-> "emerge"]
Available(cmds, via) == IF via = "system" THEN \E m \in DOMAIN Managers : Managers[m] \in cmds ELSE Managers[via] \in cmds
Possible(inst, avail, cmds, o) == o.islist /\ (Available(cmds, o.via) \/ (o.via # "system" /\ o.packages = {})) /\ (o.present => Needed(inst, o) \subseteq avail)
Between(inst, g, o) == g \in {IF o.present THEN inst \cup s ELSE inst \ s : s \in SUBSET Needed(inst, o)}
=============================================================================
