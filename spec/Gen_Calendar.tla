---- MODULE Gen_Calendar ----
EXTENDS Gen
CalForms == <<"D", "h", "m", "s", "ms", "us", "ns", "datetime", "objarray", "index", "pdseries", "timestamps", "float", "float", "floatlist", "floatseries", "int">>
CalSpace == << <<"form1", CalForms>>, <<"form2", CalForms>>, <<"form3", CalForms>>,
  <<"ep1", <<"python", "matlab", "isodate", "isotime", "isoT", "date", "datetime", "dt64", "ts", "isoms">> >>,
  <<"ep2", <<"python", "matlab", "isodate", "isotime", "date", "datetime", "dt64", "ts">> >>,
  <<"ep3", <<"python", "matlab", "isodate", "isoT", "date", "datetime", "dt64", "isoms">> >>,
  <<"year", <<"modern", "modern", "century", "leapday", "unix", "old", "first", "remote", "yearend">> >>,
  <<"eyear", <<"modern", "old", "unix", "after", "first">> >>,
  <<"tod", <<"midnight", "noon", "ms", "lastms", "hour">> >>,
  Opt("two"), Opt("trend"), Opt("phase"), Opt("nodal"),
  <<"missing", <<"none", "none", "some">> >> >>
CalValid(r) == r.form1 # r.form2 \/ r.ep1 # r.ep2
====
