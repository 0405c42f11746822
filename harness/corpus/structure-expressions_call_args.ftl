key = { FOO(arg1: 1,
            arg2: 2) }
