err01 = { $num
