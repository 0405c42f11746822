foo = Foo
.attr = Foo Attr

bar = Bar
    .attr1 = Bar Attr 1
.attr2 = Bar Attr 2
