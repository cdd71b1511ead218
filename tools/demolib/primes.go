package main

var safePrimes = []string{"55232587777966421268798631439", "67881760221898849372160844023", "45763995151124234354286044627", "75510636833936026632125891099"}
var unsafePrimes = []string{"54526420644973220122248458593", "60990765811048500832244501591", "60315639789523354760655299029", "47182729470670092059776335883"}
