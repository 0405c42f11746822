

key01 = Value
