---- MODULE Store_TTrace_1795060823 ----
EXTENDS Sequences, TLCExt, Toolbox, Store, Naturals, TLC

_expression ==
    LET Store_TEExpression == INSTANCE Store_TEExpression
    IN Store_TEExpression!expression
----

_trace ==
    LET Store_TETrace == INSTANCE Store_TETrace
    IN Store_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        todo = (<<>>)
        /\
        other = (<<>>)
        /\
        at = (1)
        /\
        kind = ("drop")
        /\
        ph = ("done")
        /\
        J = (<<>>)
        /\
        rows = (<<<<2, 0>>>>)
        /\
        M = (<<0, 0>>)
    )
----

_init ==
    /\ at = _TETrace[1].at
    /\ J = _TETrace[1].J
    /\ M = _TETrace[1].M
    /\ ph = _TETrace[1].ph
    /\ kind = _TETrace[1].kind
    /\ other = _TETrace[1].other
    /\ rows = _TETrace[1].rows
    /\ todo = _TETrace[1].todo
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ at  = _TETrace[i].at
        /\ at' = _TETrace[j].at
        /\ J  = _TETrace[i].J
        /\ J' = _TETrace[j].J
        /\ M  = _TETrace[i].M
        /\ M' = _TETrace[j].M
        /\ ph  = _TETrace[i].ph
        /\ ph' = _TETrace[j].ph
        /\ kind  = _TETrace[i].kind
        /\ kind' = _TETrace[j].kind
        /\ other  = _TETrace[i].other
        /\ other' = _TETrace[j].other
        /\ rows  = _TETrace[i].rows
        /\ rows' = _TETrace[j].rows
        /\ todo  = _TETrace[i].todo
        /\ todo' = _TETrace[j].todo

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("Store_TTrace_1795060823.json", _TETrace)

=============================================================================

 Note that you can extract this module `Store_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `Store_TEExpression.tla` file takes precedence 
  over the module `Store_TEExpression` below).

---- MODULE Store_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Store, Naturals, TLC

expression == 
    [
        \* To hide variables of the `Store` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        at |-> at
        ,J |-> J
        ,M |-> M
        ,ph |-> ph
        ,kind |-> kind
        ,other |-> other
        ,rows |-> rows
        ,todo |-> todo
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_atUnchanged |-> at = at'
        
        \* Format the `at` variable as Json value.
        \* ,_atJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(at)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_atModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].at # _TETrace[s-1].at
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE Store_TETrace ----
\*EXTENDS IOUtils, Store, TLC
\*
\*trace == IODeserialize("Store_TTrace_1795060823.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE Store_TETrace ----
EXTENDS Store, TLC

trace == 
    <<
    ([todo |-> <<>>,other |-> <<>>,at |-> 0,kind |-> "drop",ph |-> "query",J |-> <<>>,rows |-> <<<<1, 0>>, <<2, 0>>>>,M |-> <<0, 0>>]),
    ([todo |-> <<>>,other |-> <<>>,at |-> 1,kind |-> "drop",ph |-> "query",J |-> <<>>,rows |-> <<<<2, 0>>>>,M |-> <<0, 0>>]),
    ([todo |-> <<>>,other |-> <<>>,at |-> 1,kind |-> "drop",ph |-> "edit",J |-> <<>>,rows |-> <<<<2, 0>>>>,M |-> <<0, 0>>]),
    ([todo |-> <<>>,other |-> <<>>,at |-> 1,kind |-> "drop",ph |-> "done",J |-> <<>>,rows |-> <<<<2, 0>>>>,M |-> <<0, 0>>])
    >>
----


=============================================================================

---- CONFIG Store_TTrace_1795060823 ----
CONSTANTS
    Keys = { 1 , 2 , 3 }
    Vals = { 0 , 1 }
    Variant = "while"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 04:00:25 UTC 2026