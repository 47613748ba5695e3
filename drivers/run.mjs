// Calls each generated test function and prints its result as one JSON line.
import { pathToFileURL } from "node:url"
import { readFileSync, writeSync } from "node:fs"
const root = process.argv[2]
const start = Number(process.argv[3])
const tests = JSON.parse(readFileSync(root + "/tests.json", "utf8"))
const load = async (p) => (await import(pathToFileURL(root + "/src/" + p + ".js").href)).default
const put = (s) => { let b = Buffer.from(s); let o = 0; while (o < b.length) { o += writeSync(1, b, o) } }
console.log = () => {}
for (let i = start; i < tests.length; i++) {
  const t = tests[i]
  put(`@@B ${i}\n`)
  let r
  try {
    const pkg = await load(t.pkg)
    const call = async () => {
      const args = []
      if (t.context) {
        if (t.ctxfn) {
          const [cp, cf] = t.ctxfn.split("|")
          args.push((await load(cp))["f_" + cf]())
        } else {
          args.push((await load("vx/core")).e_context)
        }
      }
      let v = pkg["f_" + t.fn](...args)
      if (t.async) { v = await v }
      return v
    }
    const v = await call()
    const w = await call()
    if (typeof v !== "string") {
      r = { x: "notstring", why: "result is not a string: " + (v === undefined ? "undefined" : JSON.stringify(v)) }
    } else if (v !== w) {
      r = { x: "unrepeatable", why: "second call differs", r: v, r2: w }
    } else {
      r = { r: v }
    }
  } catch (e) {
    r = { x: "exception", why: String(e && e.stack || e).slice(0, 600) }
  }
  put(`@@R ${i} ${JSON.stringify(r)}\n`)
}
process.exit(0)
