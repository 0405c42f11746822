-term = { $sel ->
*[one] Value
    }
