----------------------------- MODULE TablesTrace -----------------------------
(*  start:  table id appears with the values given (tokens per row and name)   *)
(*  assign: id, name, v = tokens assigned per row, plain = header can hold them *)
(*  elem:   id, sets = << name, rows, tokens >>, ...: elements changed          *)
(*  select: table to = rows of table id                                         *)
(*  copy:   table to = copy of table id;  trip: ... after writing and reading   *)
(*  Every event shows all tables afterwards: tabs = << id, n, columns, keys,    *)
(*  seen (name -> tokens), rows (name -> tokens, read row by row) >>            *)
EXTENDS Tables, TraceBase
TraceSt0 == [ids |-> {}, val |-> << >>]
Put(s, id, v) == [ids |-> s.ids \cup {id}, val |-> Upd(s.val, id, v)]
RECURSIVE SetAll(_, _, _)
SetAll(v, sets, i) == IF i > Len(sets) THEN v ELSE SetAll(SElem(v, sets[i].name, sets[i].rows, sets[i].v), sets, i + 1)
Vals(e) == [x \in DOMAIN e.val |-> e.val[x]]
Next1(s, e) ==
  CASE e.k = "start"  -> Put(s, e.id, [n |-> e.n, val |-> Vals(e)])
    [] e.k = "assign" -> Put(s, e.id, SAssign(s.val[e.id], e.name, e.v))
    [] e.k = "elem"   -> Put(s, e.id, SetAll(s.val[e.id], e.sets, 1))
    [] e.k = "select" -> Put(s, e.to, SSelect(s.val[e.id], e.rows))
    [] e.k \in {"copy", "trip"} -> Put(s, e.to, s.val[e.id])
Target(e) == IF e.k \in {"select", "copy", "trip"} THEN e.to ELSE e.id
In(q) == {q[i] : i \in DOMAIN q}
Shows(tab, v) == /\ tab.n = v.n
                 /\ \A nm \in DOMAIN v.val : nm \in DOMAIN tab.seen /\ tab.seen[nm] = v.val[nm]
RowsShow(tab, v) == \A nm \in DOMAIN v.val : nm \in DOMAIN tab.rows /\ tab.rows[nm] = v.val[nm]
Home(tab) == In(tab.columns) \cap In(tab.keys) = {}
What(e) == CASE e.k = "assign" -> "assigning" [] e.k = "elem" -> "setting elements" [] e.k = "select" -> "selecting rows"
             [] e.k = "trip" -> "writing and reading" [] OTHER -> "copying"
TraceStep(s, e) ==
  LET s2 == Next1(s, e)
      tg == Target(e)
      tab(id) == e.tabs[CHOOSE i \in DOMAIN e.tabs : e.tabs[i].id = id]
  IN [st |-> s2, ck |->
      << <<What(e) \o ": values seen by name", Shows(tab(tg), s2.val[tg])>>,
         <<What(e) \o ": values seen row by row", RowsShow(tab(tg), s2.val[tg])>>,
         <<"never column and keyword at once", \A id \in s2.ids : Home(tab(id))>>,
         <<"other tables are not changed", \A id \in s2.ids \ {tg} : Shows(tab(id), s2.val[id])>> >>
      \o (IF e.k = "assign" THEN
             IF Same(e.v) /\ e.plain THEN << <<"a constant is stored once, as keyword",
                   e.name \in In(tab(tg).keys) /\ e.name \notin In(tab(tg).columns)>> >>
             ELSE IF ~Same(e.v) THEN << <<"varying values are stored as column",
                   e.name \in In(tab(tg).columns) /\ e.name \notin In(tab(tg).keys)>> >>
             ELSE << >>
          ELSE << >>)
      \o (IF e.k = "trip" THEN << <<"file: same mandatory keywords", e.hdr>> >> ELSE << >>)]
=============================================================================
