// Code generated: instantiations of the fresh families. DO NOT EDIT.
package types

// Families never used by anything else than the checks that need unseen types.
var Families = []func() Family{
	family[[1]byte],
	family[[2]byte],
	family[[3]byte],
	family[[4]byte],
	family[[5]byte],
	family[[6]byte],
	family[[7]byte],
	family[[8]byte],
	family[[9]byte],
	family[[10]byte],
	family[[11]byte],
	family[[12]byte],
	family[[13]byte],
	family[[14]byte],
	family[[15]byte],
	family[[16]byte],
	family[[17]byte],
	family[[18]byte],
	family[[19]byte],
	family[[20]byte],
	family[[21]byte],
	family[[22]byte],
	family[[23]byte],
	family[[24]byte],
	family[[25]byte],
	family[[26]byte],
	family[[27]byte],
	family[[28]byte],
	family[[29]byte],
	family[[30]byte],
	family[[31]byte],
	family[[32]byte],
	family[[33]byte],
	family[[34]byte],
	family[[35]byte],
	family[[36]byte],
	family[[37]byte],
	family[[38]byte],
	family[[39]byte],
	family[[40]byte],
	family[[41]byte],
	family[[42]byte],
	family[[43]byte],
	family[[44]byte],
	family[[45]byte],
	family[[46]byte],
	family[[47]byte],
	family[[48]byte],
	family[[49]byte],
	family[[50]byte],
	family[[51]byte],
	family[[52]byte],
	family[[53]byte],
	family[[54]byte],
	family[[55]byte],
	family[[56]byte],
	family[[57]byte],
	family[[58]byte],
	family[[59]byte],
	family[[60]byte],
	family[[61]byte],
	family[[62]byte],
	family[[63]byte],
	family[[64]byte],
	family[[65]byte],
	family[[66]byte],
	family[[67]byte],
	family[[68]byte],
	family[[69]byte],
	family[[70]byte],
	family[[71]byte],
	family[[72]byte],
	family[[73]byte],
	family[[74]byte],
	family[[75]byte],
	family[[76]byte],
	family[[77]byte],
	family[[78]byte],
	family[[79]byte],
	family[[80]byte],
	family[[81]byte],
	family[[82]byte],
	family[[83]byte],
	family[[84]byte],
	family[[85]byte],
	family[[86]byte],
	family[[87]byte],
	family[[88]byte],
	family[[89]byte],
	family[[90]byte],
	family[[91]byte],
	family[[92]byte],
	family[[93]byte],
	family[[94]byte],
	family[[95]byte],
	family[[96]byte],
}
