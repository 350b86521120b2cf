//go:build go1.21

package genesis

import (
	"strconv"
	"time"

	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/rings"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops G01

//gov:lemma G01
func zzGenesis(junkUnits Units, junkFees uint, junkTime time.Time, units Units, withFees bool, fees uint, withTime bool, at time.Time) {
	var list []Unit
	if units != nil {
		list = units.All()
	}
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && list[i].Content() != nil }))
	zzgov.NoPanic()
	builder := NewBuilder().WithUnits(junkUnits).WithFees(junkFees).CreatedOn(junkTime).Create().WithUnits(units)
	if withFees {
		builder = builder.WithFees(fees)
	}
	if withTime {
		builder = builder.CreatedOn(at)
	}
	genesis, err := builder.Now()
	ok := units != nil && withFees && withTime && zzgov.ForAll(0, len(list), func(i int) bool { return !list[i].Content().CreatedOn().Before(at) })
	zzgov.Ensures("obtained exactly when complete and no unit is older", (err == nil) == ok && (genesis != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("units as given", zzgov.Same(genesis.Units(), units))
	zzgov.Ensures("fees as given", genesis.Fees() == fees)
	zzgov.Ensures("creation time as given", zzgov.Same(genesis.CreatedOn(), at))
	data := strconv.Itoa(int(fees)) + string(hash.ZZBytes(units.Hash())) + strconv.Itoa(int(at.UnixNano()))
	zzgov.Ensures("digest of every part", genesis.Hash() == hash.ZZDigest([]byte(data)))
}

//gov:lemma G01
func zzUnits(junk, list []Unit) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	units, err := createUnitsBuilder(hash.NewAdapter()).WithList(junk).Create().WithList(list).Now()
	ok := len(list) > 0
	zzgov.Ensures("obtained exactly when not empty", (err == nil) == ok && (units != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("members as given", zzgov.Same(units.All(), list))
	zzgov.Ensures("digest of the members' digests in order", units.Hash() == hash.ZZDigest(zzgov.Concat(len(list), func(i int) []byte { return hash.ZZBytes(list[i].Hash()) })))
}

//gov:lemma G01
func zzUnit(junkContent UnitContent, junkOwner rings.Ring, content UnitContent, owner rings.Ring) {
	zzgov.NoPanic()
	unit, err := NewUnitBuilder().WithContent(junkContent).WithOwner(junkOwner).Create().WithContent(content).WithOwner(owner).Now()
	ok := content != nil && owner != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (unit != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("content as given", zzgov.Same(unit.Content(), content))
	zzgov.Ensures("owner as given", zzgov.Same(unit.Owner(), owner))
	zzgov.Ensures("digest of every part", unit.Hash() == hash.ZZDigest([]byte(string(hash.ZZBytes(content.Hash()))+string(hash.ZZBytes(owner.Hash())))))
}

//gov:lemma G01
func zzUnitContent(junkAmount uint, junkNonce string, junkActivated, junkCreated time.Time, amount uint, nonce string, withActivated bool, activated time.Time, withCreated bool, created time.Time) {
	zzgov.NoPanic()
	builder := NewUnitContentBuilder().WithAmount(junkAmount).WithNonce(junkNonce).ActivatedOn(junkActivated).CreatedOn(junkCreated).Create()
	builder = builder.WithAmount(amount).WithNonce(nonce)
	if withActivated {
		builder = builder.ActivatedOn(activated)
	}
	if withCreated {
		builder = builder.CreatedOn(created)
	}
	content, err := builder.Now()
	ok := amount > 0 && nonce != "" && withActivated && withCreated && !activated.Before(created)
	zzgov.Ensures("obtained exactly when complete and not activated before its creation", (err == nil) == ok && (content != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("amount as given", content.Amount() == amount)
	zzgov.Ensures("nonce as given", content.Nonce() == nonce)
	zzgov.Ensures("activation time as given", zzgov.Same(content.ActivatedOn(), activated))
	zzgov.Ensures("creation time as given", zzgov.Same(content.CreatedOn(), created))
	data := strconv.Itoa(int(amount)) + nonce + strconv.Itoa(int(activated.UnixNano())) + strconv.Itoa(int(created.UnixNano()))
	zzgov.Ensures("digest of every part", content.Hash() == hash.ZZDigest([]byte(data)))
}
