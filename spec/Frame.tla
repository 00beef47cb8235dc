------------------------------- MODULE Frame -------------------------------
(* Who may change what.  Memory: tables of the library, inputs of the caller, *)
(* results already returned.  A call of a function reads tables and inputs    *)
(* and makes one new result; only functions that act in place write, and only *)
(* to their first argument.  The caller may overwrite any result.             *)
EXTENDS Integers, Sequences, FiniteSets
InPlace == {"shift_atoms", "cure_negative", "ensure_000"}
\* value returned by f when the tables hold t and its input holds v: here a name
Value(f, t, v) == <<f, t, v>>
\* s = [tables, inputs, results]; results are <<function, input, value>>
Start == [tables |-> 0, inputs |-> <<0, 0>>, results |-> <<>>]
Call(s, f, i) == [s EXCEPT !.results = Append(@, Value(f, s.tables, s.inputs[i]))]
Spoil(s) == [s EXCEPT !.results = <<>>]
\* the caller writes another value into an input, in place
Change(s, i) == [s EXCEPT !.inputs[i] = 1 - @]
Expected(s, f, i) == Value(f, s.tables, s.inputs[i])
=============================================================================
