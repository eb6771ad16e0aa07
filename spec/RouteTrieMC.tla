---- MODULE RouteTrieMC ----
EXTENDS RouteTrie
MCFilters == {<<"a">>, <<"a","b">>, <<"+","b">>, <<"a","#">>, <<"#">>, <<"+">>, <<"$x","#">>}
MCTopics == {<<"a">>, <<"a","b">>, <<"a","b","c">>, <<"b">>, <<"$x">>, <<"$x","b">>, <<"", "b">>}
====
