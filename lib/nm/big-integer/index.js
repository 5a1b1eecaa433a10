// Minimal stand-in for the npm package "big-integer" on top of native BigInt.
"use strict";
function parse(v, radix) {
    if (v instanceof BigInteger) return v.value;
    if (v === undefined) return 0n;
    if (typeof v === "bigint") return v;
    if (typeof v === "number") return BigInt(v);
    let s = String(v).trim();
    let neg = false;
    if (s[0] === "-") { neg = true; s = s.slice(1); }
    radix = radix === undefined ? 10n : BigInt(radix);
    if (radix === 10n && /^[0-9]+$/.test(s)) { const x = BigInt(s); return neg ? -x : x; }
    if (radix === 10n) throw new Error("Invalid integer: " + v);
    let r = 0n;
    for (const c of s.toLowerCase()) {
        const d = parseInt(c, 36);
        if (!(d < Number(radix))) throw new Error("Invalid digit: " + c);
        r = r * radix + BigInt(d);
    }
    return neg ? -r : r;
}
class BigInteger {
    constructor(v) { this.value = v; }
    add(o) { return new BigInteger(this.value + parse(o)); }
    subtract(o) { return new BigInteger(this.value - parse(o)); }
    multiply(o) { return new BigInteger(this.value * parse(o)); }
    square() { return new BigInteger(this.value * this.value); }
    divide(o) { return new BigInteger(this.value / parse(o)); }
    mod(o) { return new BigInteger(this.value % parse(o)); }
    divmod(o) { return {quotient: this.divide(o), remainder: this.mod(o)}; }
    pow(e) { return new BigInteger(this.value ** parse(e)); }
    modPow(e, m) {
        let r = 1n, b = this.value, x = parse(e); m = parse(m);
        b = ((b % m) + m) % m; r = r % m;
        while (x > 0n) { if (x & 1n) r = r * b % m; b = b * b % m; x >>= 1n; }
        return new BigInteger(r);
    }
    modInv(m) {
        m = parse(m);
        let t = 0n, newT = 1n, r = m, newR = ((this.value % m) + m) % m;
        while (newR !== 0n) {
            const q = r / newR;
            [t, newT] = [newT, t - q * newT];
            [r, newR] = [newR, r - q * newR];
        }
        if (r !== 1n) throw new Error(this.toString() + " and " + m + " are not co-prime");
        if (t < 0n) t += m;
        return new BigInteger(t);
    }
    shiftLeft(n) { n = parse(n); return new BigInteger(n >= 0n ? this.value << n : this.value >> -n); }
    shiftRight(n) { n = parse(n); return new BigInteger(n >= 0n ? this.value >> n : this.value << -n); }
    and(o) { return new BigInteger(this.value & parse(o)); }
    or(o) { return new BigInteger(this.value | parse(o)); }
    xor(o) { return new BigInteger(this.value ^ parse(o)); }
    not() { return new BigInteger(~this.value); }
    negate() { return new BigInteger(-this.value); }
    abs() { return new BigInteger(this.value < 0n ? -this.value : this.value); }
    prev() { return new BigInteger(this.value - 1n); }
    next() { return new BigInteger(this.value + 1n); }
    compare(o) { const v = parse(o); return this.value < v ? -1 : this.value > v ? 1 : 0; }
    compareAbs(o) { return this.abs().compare(new BigInteger(parse(o)).abs()); }
    equals(o) { return this.value === parse(o); }
    notEquals(o) { return this.value !== parse(o); }
    greater(o) { return this.value > parse(o); }
    lesser(o) { return this.value < parse(o); }
    greaterOrEquals(o) { return this.value >= parse(o); }
    lesserOrEquals(o) { return this.value <= parse(o); }
    isZero() { return this.value === 0n; }
    isUnit() { return this.value === 1n || this.value === -1n; }
    isEven() { return (this.value & 1n) === 0n; }
    isOdd() { return (this.value & 1n) === 1n; }
    isNegative() { return this.value < 0n; }
    isPositive() { return this.value > 0n; }
    isDivisibleBy(o) { const v = parse(o); return v !== 0n && this.value % v === 0n; }
    bitLength() {
        let v = this.value < 0n ? -this.value - 1n : this.value;
        let n = 0n;
        while (v > 0n) { n++; v >>= 1n; }
        return new BigInteger(n);
    }
    toJSNumber() { return Number(this.value); }
    valueOf() { return Number(this.value); }
    toString(radix) { return this.value.toString(radix === undefined ? 10 : Number(radix)); }
    toJSON() { return this.toString(); }
}
const P = BigInteger.prototype;
P.plus = P.add; P.minus = P.subtract; P.times = P.multiply; P.over = P.divide; P.remainder = P.mod;
P.compareTo = P.compare; P.eq = P.equals; P.neq = P.notEquals; P.gt = P.greater; P.lt = P.lesser;
P.geq = P.greaterOrEquals; P.leq = P.lesserOrEquals;
function bigInt(v, radix) { return new BigInteger(parse(v, radix)); }
bigInt.zero = new BigInteger(0n);
bigInt.one = new BigInteger(1n);
bigInt.minusOne = new BigInteger(-1n);
for (let i = -999; i < 1000; i++) bigInt[i] = new BigInteger(BigInt(i));
bigInt.isInstance = (x) => x instanceof BigInteger;
bigInt.max = (a, b) => (bigInt(a).geq(b) ? bigInt(a) : bigInt(b));
bigInt.min = (a, b) => (bigInt(a).leq(b) ? bigInt(a) : bigInt(b));
module.exports = bigInt;
