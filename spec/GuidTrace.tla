----------------------------- MODULE GuidTrace ------------------------------
(* Judges identifier conversions recorded from the implementation.           *)
EXTENDS Guid, CaseIO

U32(b) == <<b[1] * 256 + b[2], b[3] * 256 + b[4]>>
TextWhy(c) == IF c.str # TextOf(c.g) THEN <<"text", c.str>>
              ELSE IF c.zero # (c.g = [i \in 1 .. 16 |-> 0]) THEN <<"zero test">>
              ELSE IF c.ca # U32(SubSeq(c.g, 1, 4)) \/ c.cb # 256 * c.g[5] + c.g[6] \/ c.cc # 256 * c.g[7] + c.g[8] \/ c.cd # SubSeq(c.g, 9, 16) THEN <<"components">>
              ELSE <<>>
ParseWhy(c) == LET r == ParseOf(c.t) IN
               IF c.ok THEN (IF r = <<c.g>> THEN <<>> ELSE <<"text accepted as", c.g, "expected", r>>)
               ELSE IF r = <<>> \/ Lenient(c.t) THEN <<>> ELSE <<"text refused", c.t, r>>
BytesWhy(c) == LET r == FromBytes(c.b, c.swap) IN
               IF c.after # c.b THEN <<"input altered">>
               ELSE IF c.ok # (r # <<>>) THEN <<"accepted", c.ok>>
               ELSE IF ~c.ok THEN <<>>
               ELSE IF c.g # r[1] THEN <<"read as", c.g, r>>
               ELSE IF c.out # BytesOf(c.g, c.swap) \/ c.other # BytesOf(c.g, ~c.swap) THEN <<"written as", c.out, c.other>>
               ELSE IF c.gafter # c.g THEN <<"writing altered the identifier">>
               ELSE <<>>
CmpWhy(c) == LET o == Order(c.a, c.b) IN
             IF c.cmp # o \/ c.mcmp # o THEN <<"compare", c.cmp, c.mcmp, "expected", o>>
             ELSE IF c.eq # (o = 0) \/ c.meq # (o = 0) THEN <<"equal">> ELSE <<>>
Why(c) == CASE c.k = "text" -> TextWhy(c) [] c.k = "parse" -> ParseWhy(c) [] c.k = "bytes" -> BytesWhy(c) [] c.k = "cmp" -> CmpWhy(c)
TInit == CaseInit
TNext == Cur <= NumCases /\ \E w \in {Why(Cases[Cur])} : Judge(w = <<>>, w)
=============================================================================
