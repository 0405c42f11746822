
   

   
key01 = Value
