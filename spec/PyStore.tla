------------------------------- MODULE PyStore -------------------------------
(* The Python view of the library: named objects, each holding a value.
   A call applies an operation of the C++ library to the values of its
   arguments; it changes nothing but the object that takes its result (the
   first argument for in-place calls). Copying an object by whatever protocol
   (pickling, copy, deepcopy, YAML, clone) gives another object an equal value
   and shares nothing with the original.  Values are opaque: 0 is "no object".
   What an operation yields is given by the library (argument res, and fail
   when it raises).                                                          *)
EXTENDS Naturals, Sequences
CONSTANT Slots
VARIABLE store
None == 0
SInit == store = [s \in Slots |-> None]
\* the arguments named by slot hold the values they were passed
Passed(src, args) == \A i \in 1..Len(src) : src[i] # 0 => store[src[i]] = args[i]
Call(src, args, dst, res, fail) ==
    /\ Passed(src, args)
    /\ fail => dst = 0
    /\ store' = IF dst = 0 THEN store ELSE [store EXCEPT ![dst] = res]
Copy(from, dst) ==
    /\ store[from] # None
    /\ store' = [store EXCEPT ![dst] = store[from]]
=============================================================================
