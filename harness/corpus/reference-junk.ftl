## Two adjacent Junks.
err01 = {1x}
err02 = {2x}

# A single Junk.
err03 = {1x
2

# A single Junk.
ą=Invalid identifier
ć=Another one

# The COMMENT ends this junk.
err04 = {
# COMMENT

# The COMMENT ends this junk.
# The closing brace is a separate Junk.
err04 = {
# COMMENT
}
