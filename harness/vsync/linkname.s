// lets the package declare a function without a body
