#             ↓ BEL, U+0007
control0 = abcdef

#           ↓ DEL, U+007F
delete = abcdef

#             ↓ BPM, U+0082
control1 = abcdef
