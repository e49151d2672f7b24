-------------------------------- MODULE Fleet --------------------------------
(* The discrete skeleton of a fleet of spacecraft (C20, C21): clocks, steering
   modes, tracked targets and slews.  Time is counted in ticks; a slew that
   starts at tick t is over before tick t + 1, so it is due at every update
   later than t.  Every operation is atomic; its attitude update brings the
   tracked target, the target's target, ... to the caller's tick.

   TLC explores every reachable state, checks the laws below on each, and prints
   every transition; harness/graph.py covers all of them with walks and replays
   the walks on real spacecraft. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* spacecraft 1..N
          K         \* ticks 0..K

Craft == 1..N
Nadir == 0
Solar == -1         \* steering: 0, -1, or the tracked craft

VARIABLES tick, mode, due, op, upd, flown
\* due[c] = -1: not slewing; otherwise the tick the current slew began
vars == <<tick, mode, due>>

TypeOK == /\ tick \in [Craft -> 0..K]
          /\ mode \in [Craft -> {Nadir, Solar} \cup Craft]
          /\ due \in [Craft -> -1..K]
          /\ \A c \in Craft : mode[c] # c

Init == /\ tick \in [Craft -> 0..K] /\ tick[1] = 0
        /\ mode = [c \in Craft |-> Nadir]
        /\ due = [c \in Craft |-> -1]
        /\ op = [k |-> "init", i |-> 0, j |-> 0] /\ upd = {} /\ flown = {}

(* the crafts an update of craft i reaches, in order: follow the tracked target
   as long as it is at another tick than t *)
RECURSIVE Chain(_, _, _, _, _)
Chain(c, t, m, tk, seen) ==
  IF m[c] > 0 /\ tk[m[c]] # t /\ m[c] \notin seen
  THEN <<c>> \o Chain(m[c], t, m, tk, seen \cup {m[c]})
  ELSE <<c>>

Range(s) == {s[k] : k \in DOMAIN s}

(* craft i is at tick t with steering m: settle attitudes *)
Settle(i, t, m, d, moved) ==
  LET tk == [tick EXCEPT ![i] = t]
      ch == Range(Chain(i, t, m, tk, {i}))
  IN /\ tick' = [c \in Craft |-> IF c \in ch THEN t ELSE tick[c]]
     /\ mode' = m
     /\ due' = [c \in Craft |-> IF c \in ch /\ d[c] >= 0 /\ t > d[c] THEN -1 ELSE d[c]]
     /\ upd' = ch
     /\ flown' = {c \in ch : tick[c] # t} \cup moved

To(i, t) == Settle(i, t, mode, due, {}) /\ op' = [k |-> "to", i |-> i, j |-> t]
Step(i, s) == /\ tick[i] + s \in 0..K
              /\ Settle(i, tick[i] + s, mode, due, {})
              /\ op' = [k |-> "step", i |-> i, j |-> s]
Impulse(i) == Settle(i, tick[i], mode, due, {i}) /\ op' = [k |-> "impulse", i |-> i, j |-> 0]
Steer(i, m) ==
  LET new == mode[i] # m
  IN /\ Settle(i, tick[i], [mode EXCEPT ![i] = m],
               IF new THEN [due EXCEPT ![i] = tick[i]] ELSE due, {})
     /\ op' = [k |-> "steer", i |-> i, j |-> m]

Next == \E i \in Craft :
          \/ \E t \in 0..K : To(i, t)
          \/ \E s \in {-1, 1} : Step(i, s)
          \/ Impulse(i)
          \/ \E m \in {Nadir, Solar} \cup (Craft \ {i}) : Steer(i, m)

Spec == Init /\ [][Next]_<<vars, op, upd, flown>>

View == vars
Log == PrintT(ToJson(<<tick, mode, due, op'.k, op'.i, op'.j, tick', mode', due', upd', flown'>>))

------------------------------------------------------------------------------
(* laws; as properties of every transition, because the view hides upd and flown *)
Synced == \A c \in upd : mode[c] > 0 => tick[mode[c]] = tick[c]
Due == \A c \in upd : due[c] >= 0 => tick[c] <= due[c]
\* an update reaches only the caller, its target, the target's target, ...
RECURSIVE Reach(_, _, _)
Reach(c, m, seen) == IF m[c] > 0 /\ m[c] \notin seen THEN Reach(m[c], m, seen \cup {m[c]}) ELSE seen
Confined == op.i > 0 => (upd \cup flown) \subseteq Reach(op.i, mode, {op.i})
Updates == [][Synced' /\ Due' /\ Confined']_<<vars, op, upd, flown>>
\* a slew begins only by a command that changes the pointing, and ends only at an update after it is due
SlewLaw == [][\A c \in Craft :
   /\ (due[c] = -1 /\ due'[c] >= 0) => op'.k = "steer" /\ op'.i = c /\ mode[c] # mode'[c]
   /\ (due[c] >= 0 /\ due'[c] = -1) => c \in upd' /\ tick'[c] > due[c]
   /\ (mode[c] # mode'[c]) => op'.k = "steer" /\ op'.i = c /\ due'[c] = tick'[c]]_<<vars, op, upd, flown>>
Bystanders == [][\A c \in Craft : c \notin upd' => tick'[c] = tick[c] /\ mode'[c] = mode[c] /\ due'[c] = due[c]]_<<vars, op, upd, flown>>
\* repeating the current command changes nothing but clocks and finished slews
Idempotent == [][\A c \in Craft : (op'.k = "steer" /\ mode = mode') => due'[c] \in {due[c], -1}]_<<vars, op, upd, flown>>
==============================================================================
