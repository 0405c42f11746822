err01 = { $foo -> }

err02 = { $foo ->
    }

err03 = { $foo ->
