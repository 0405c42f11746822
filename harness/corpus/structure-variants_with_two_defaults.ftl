-err01 = { $sel ->
    *[one] Foo
    *[two] Two
    }
