----------------------------- MODULE Activate -----------------------------
(* Switching macro support on and off, and what imports do meanwhile.

   Files: p is plain, d is plain and has a macro and a dialect, u uses the macro, s the dialect,
   h has phases.  Each has a version (0: it has a syntax error), a modification time, maybe a compiled file [stamp, val]
   and, if it is loaded, what it computed: a sequence of versions. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS In(_), NumIn, Stride, Offset
VARIABLES tid, pos, loaded, active, ver, mt, now, pyc, mem, log
vars == <<tid, pos, loaded, active, ver, mt, now, pyc, mem, log>>
Files == {"p", "d", "u", "s", "h"}
Users == {"u", "s"}
NoPyc == [stamp |-> 0, val |-> <<>>]
Hist == In(tid).hist
Op == Hist[pos]
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ tid \in {i \in 1..NumIn : i % Stride = Offset % Stride}
        /\ pos = 1 /\ loaded = FALSE /\ active = FALSE
        /\ ver = [f \in Files |-> 1] /\ mt = [f \in Files |-> IF f = "d" THEN In(tid).dmt ELSE 2] /\ now = 10
        /\ pyc = [f \in Files |-> NoPyc] /\ mem = [f \in Files |-> <<>>] /\ log = <<>>

Out(o, w) == log' = Append(log, [out |-> o, active |-> active', wrote |-> w])
Forget == mem' = [f \in Files |-> <<>>]

Load == /\ Op.o = "load" /\ active' = (IF loaded THEN active ELSE TRUE) /\ loaded' = TRUE
        /\ Out(<<"ok">>, {}) /\ UNCHANGED <<ver, mt, now, pyc, mem>>
Act == /\ Op.o = "act" /\ active' = (IF loaded THEN TRUE ELSE active)
       /\ Out(<<IF loaded THEN "ok" ELSE "skip">>, {}) /\ UNCHANGED <<loaded, ver, mt, now, pyc, mem>>
Deact == /\ Op.o = "deact" /\ active' = FALSE
         /\ Out(<<IF loaded THEN "ok" ELSE "skip">>, {}) /\ UNCHANGED <<loaded, ver, mt, now, pyc, mem>>
\* the world outside; modules are forgotten so that they are imported again
Edit == /\ Op.o \in {"edit", "break"}
        /\ ver' = [ver EXCEPT ![Op.f] = IF Op.o = "break" THEN 0 ELSE now]
        /\ mt' = [mt EXCEPT ![Op.f] = now] /\ now' = now + 1 /\ Forget
        /\ UNCHANGED <<loaded, active, pyc>> /\ Out(<<"ok">>, {})
Rm == /\ Op.o = "rmpyc" /\ pyc' = [pyc EXCEPT ![Op.f] = NoPyc] /\ Forget
      /\ UNCHANGED <<loaded, active, ver, mt, now>> /\ Out(<<"ok">>, {})
ForgetAll == /\ Op.o = "forget" /\ Forget /\ UNCHANGED <<loaded, active, ver, mt, now, pyc>> /\ Out(<<"ok">>, {})

\* a file that needs macro support, imported without it, is not cached (its cache would be wrong later, which is documented)
Write == Op.write /\ (active \/ Op.f \in {"p", "d"})
\* the phase macro comes from a file of the macro expander itself, newer than all of these
Stamp(f) == IF active /\ f = "h" THEN 1000000 ELSE IF active /\ f \in Users THEN Max(mt[f], mt["d"]) ELSE mt[f]
Valid(f) == pyc[f].stamp = Stamp(f)
Loaded(f) == mem[f] # <<>>
\* import of a plain file, as part of an import: <<new mem, new pyc, files written>>
PlainIn(f, m, c) == IF m[f] # <<>> THEN <<m, c, {}>>
                    ELSE IF c[f].stamp = mt[f] THEN <<[m EXCEPT ![f] = c[f].val], c, {}>>
                    ELSE <<[m EXCEPT ![f] = <<ver[f]>>], IF Write THEN [c EXCEPT ![f] = [stamp |-> mt[f], val |-> <<ver[f]>>]] ELSE c, IF Write THEN {f} ELSE {}>>
Import ==
  /\ Op.o = "imp" /\ UNCHANGED <<loaded, active, ver, mt, now>>
  /\ LET f == Op.f IN
     IF Loaded(f) THEN Out(mem[f], {}) /\ UNCHANGED <<mem, pyc>>
     ELSE IF ver[f] = 0 THEN Out(<<"SyntaxError">>, {}) /\ UNCHANGED <<mem, pyc>>
     ELSE IF f \in {"p", "d"}
          THEN LET r == PlainIn(f, mem, pyc) IN mem' = r[1] /\ pyc' = r[2] /\ Out(r[1][f], r[3])
     ELSE IF active /\ f \in Users /\ ver["d"] = 0 THEN Out(<<"SyntaxError">>, {}) /\ UNCHANGED <<mem, pyc>>
     ELSE IF Valid(f) /\ f = "h" THEN mem' = [mem EXCEPT ![f] = pyc[f].val] /\ Out(pyc[f].val, {}) /\ UNCHANGED pyc
     ELSE IF f = "h"
          THEN IF active THEN /\ mem' = [mem EXCEPT ![f] = <<ver[f]>>] /\ Out(<<ver[f]>>, IF Write THEN {f} ELSE {})
                                   /\ pyc' = IF Write THEN [pyc EXCEPT ![f] = [stamp |-> Stamp(f), val |-> <<ver[f]>>]] ELSE pyc
               ELSE Out(<<"ImportError">>, {}) /\ UNCHANGED <<mem, pyc>>
     ELSE IF ~Loaded("d") /\ ver["d"] = 0 THEN Out(<<"SyntaxError">>, {}) /\ UNCHANGED <<mem, pyc>>
     ELSE LET r == PlainIn("d", mem, pyc)
              v == <<ver[f]>> \o r[1]["d"] IN
          \* a macro-import imports the module also when the importing one is run, from its cache too
          IF Valid(f) THEN mem' = [r[1] EXCEPT ![f] = pyc[f].val] /\ pyc' = r[2] /\ Out(pyc[f].val, r[3])
          ELSE IF active THEN /\ mem' = [r[1] EXCEPT ![f] = v]
                              /\ pyc' = IF Write THEN [r[2] EXCEPT ![f] = [stamp |-> Stamp(f), val |-> v]] ELSE r[2]
                              /\ Out(v, r[3] \cup (IF Write THEN {f} ELSE {}))
          ELSE mem' = r[1] /\ pyc' = r[2] /\ Out(<<"ImportError">>, r[3])

Next == /\ pos <= Len(Hist) /\ pos' = pos + 1 /\ tid' = tid
        /\ (Load \/ Act \/ Deact \/ Edit \/ Rm \/ ForgetAll \/ Import)
Finished == pos > Len(Hist)
Report == Finished => PrintT("@" \o ToJson([id |-> tid, dmt |-> In(tid).dmt, hist |-> Hist, log |-> log]))
-----------------------------------------------------------------------------
\* active exactly while activated
ActiveRight == active => loaded
\* plain files are not affected by being active or not: what they give is their version, and a cache of the same version is kept
PlainRight == \A f \in {"p", "d"} : /\ Loaded(f) => mem[f] = <<ver[f]>>
                                   /\ pyc[f].stamp = mt[f] => pyc[f].val = <<ver[f]>>
\* files that need macro support never give anything but their expansion
ExpandedRight == \A f \in Users : Loaded(f) => Len(mem[f]) = 2 /\ mem[f][1] = ver[f]
\* switching changes nothing but the switch
SwitchOnly == [][Op.o \in {"act", "deact", "load"} => UNCHANGED <<ver, mt, pyc, mem>>]_vars
\* an import does not switch
ImportKeeps == [][Op.o \notin {"act", "deact", "load"} => active' = active]_vars
=============================================================================
