--------------------------------- MODULE Emit ---------------------------------
(* Machines write the sessions they predict (or only enumerate) to a file.     *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE IOUtils
LOCAL INSTANCE CSV

What == IOEnv.WHAT
(* An event the outcome of which is predicted; is for the trace specification *)
(* to judge.                                                                  *)
Gives(op, in, out) == <<op, in, 0, out>>
Asks(op, in) == <<op, in, 0, <<>>>>
(* The embedding is replaced by those the runner chooses. *)
Emit(events) == CSVWrite("%1$s", <<<< <<64, 0, 0, 0>>, events >>>>, IOEnv.EMIT)
=============================================================================
