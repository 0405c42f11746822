key1 = Value 1
    .attr =

key2 =
    .attr =

key3 =
    .attr1 = Attr 1
    .attr2 =

key4 =
    .attr1 =
    .attr2 = Attr 2

key5 =
    .attr1 =
    .attr2 =
