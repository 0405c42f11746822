### This entire file uses CR as EOL.err01 = Value 01err02 = Value 02err03 =    Value 03    Continued    .title = Titleerr04 = { "strerr05 = { $sel -> }