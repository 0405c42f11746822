err01 = { no-caps-name() }
err02 = { BUILTIN(2: "foo") }
err03 = { BUILTIN(key: foo) }
