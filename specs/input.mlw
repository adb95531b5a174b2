module Input
  use int.Int
  use ref.Ref
  (* the input file: its characters, -1 at the end; gpos characters have been read *)
  function fch int : int
  val ref gpos : int
  val fgetc_ (f_: int) : int writes { gpos } ensures { result = fch (old gpos) /\ gpos = old gpos + 1 }
  val line_directive_ () : int
end
