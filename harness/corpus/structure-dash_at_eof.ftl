### BE CAREFUL WHEN EDITING THIS FILE
###
### The last character in this file is the dash ("-") on line 8.
### We want to test a literal which starts like a negative number.
### Most editors automatically add a trailing newline at EOF.
### If you edit this file make sure to turn this behavior off.

key1 = {-