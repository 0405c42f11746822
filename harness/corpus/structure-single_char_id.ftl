k = Value
    .l = Foo
