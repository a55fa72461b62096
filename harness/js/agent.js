// Runs programs, given as JSON lines, against the Node.js binding and logs what happens.
'use strict'
const fs = require('fs')
const readline = require('readline')

const m = { exports: {} }
process.dlopen(m, process.argv[2])
const ipmb = m.exports

const out = (o) => fs.writeSync(1, JSON.stringify(o) + '\n')
const now = () => Number(process.hrtime.bigint() / 1000n) // microseconds
const sleep = (ms) => new Promise((r) => setTimeout(r, ms))
const turn = () => new Promise((r) => setImmediate(r))

process.on('uncaughtException', (e) => out({ crash: String(e && e.stack) }))
process.on('unhandledRejection', (e) => out({ crash: 'unhandled ' + String(e && e.stack) }))

function op(e) {
  if (e === 'T') return new ipmb.LabelOp(true)
  if (e === 'F') return new ipmb.LabelOp(false)
  if (e.L !== undefined) return new ipmb.LabelOp(e.L)
  if (e.N !== undefined) {
    const o = op(e.N)
    o.not()
    return o
  }
  const [a, b] = e.A || e.O
  const same = JSON.stringify(a) === JSON.stringify(b)
  const l = op(a)
  const r = same ? l : op(b)
  if (e.A) l.and(r)
  else l.or(r)
  return l
}

let answers = []
let waiting = null
function answer() {
  if (answers.length) return Promise.resolve(answers.shift())
  return new Promise((r) => (waiting = r))
}

async function ask(o) {
  out(o)
  return await answer()
}

// Buffers within memory which is used again for the next message; one which another begins with is
// a part of it
const arena = Buffer.alloc(1 << 18)
function place(list) {
  const placed = []
  let at = 0
  for (const b of [...list].sort((a, b) => b.length - a.length)) {
    const p = placed.find((p) => b.length && b.equals(p.subarray(0, b.length)))
    if (p) {
      placed.push(p.subarray(0, b.length))
    } else if (at + b.length <= arena.length) {
      b.copy(arena, at)
      placed.push(arena.subarray(at, at + b.length))
      at += b.length
    } else {
      placed.push(b)
    }
  }
  return list.map((b) => placed.find((p) => p.equals(b)))
}

function describe(msg) {
  const d = { format: msg.bytesMessage.format, data: Buffer.from(msg.bytesMessage.data).toString('hex'), objects: [], regions: [] }
  for (const o of msg.objects) {
    const fd = o.value()
    let s
    try {
      s = fs.fstatSync(fd).ino
    } catch (e) {
      s = String(e)
    }
    d.objects.push(s)
  }
  for (const r of msg.memoryRegions) {
    const all = r.map(0, -1)
    const x = { len: all.length, data: all.toString('hex'), ok: true }
    const k = all.length >> 1
    x.ok &&= Buffer.compare(r.map(k, -1), all.subarray(k)) === 0
    x.ok &&= Buffer.compare(r.map(k >> 1, k - (k >> 1)), all.subarray(k >> 1, k)) === 0
    for (const [a, b] of [[0, all.length + 1], [all.length + 1, -1], [all.length, 1], [4294967295, 2147483647]]) {
      try {
        r.map(a, b)
        x.ok = false
      } catch (e) {}
    }
    // it's a copy
    if (all.length) {
      all[0] ^= 255
      x.ok &&= r.map(0, 1)[0] === (all[0] ^ 255)
    }
    d.regions.push(x)
  }
  return d
}

async function run(prog) {
  const log = []
  const eps = []
  const calls = []
  const recv = (k, limit) => {
    const id = calls.length
    const c = { id, ep: k, limit, begin: now(), open: !eps[k].closed, done: null }
    calls.push(c)
    let p
    try {
      p = limit === null ? eps[k].receiver.recv() : eps[k].receiver.recv(limit)
    } catch (e) {
      c.end = now()
      c.done = Promise.resolve()
      log.push({ t: 'threw', id, at: c.end, why: String(e.message) })
      c.settled = true
      return c
    }
    c.end = now()
    c.done = p.then(
      (msg) => {
        c.settled = true
        let d
        try {
          d = describe(msg)
        } catch (e) {
          d = { bad: String(e && e.stack) }
        }
        c.got = d
        log.push({ t: 'got', id, at: now(), msg: d })
      },
      (e) => {
        c.settled = true
        log.push({ t: 'rejected', id, at: now(), why: String(e && e.message) })
      }
    )
    return c
  }
  const within = async (p, ms) => {
    let t
    const r = await Promise.race([p.then(() => true), new Promise((f) => (t = setTimeout(() => f(false), ms)))])
    clearTimeout(t)
    return r
  }
  let ok = true
  for (const o of prog.ops) {
    if (o.join) {
      try {
        const e = ipmb.join({ identifier: o.join.identifier, label: o.join.label, token: o.join.token, controllerAffinity: o.join.affinity }, 8000)
        eps.push({ sender: e.sender, receiver: e.receiver, closed: false })
        log.push({ t: 'joined', at: now() })
      } catch (e) {
        log.push({ t: 'not joined', why: String(e.message) })
        if (!o.join.refused) {
          ok = false
          break
        }
      }
    } else if (o.recv) {
      recv(o.recv.who, o.recv.limit)
    } else if (o.send) {
      const s = o.send
      const l = { t: 'sent', seq: s.seq, begin: now() }
      try {
        const e = op(s.expr)
        l.shown = e.toString()
        const list = [s.data, ...s.regions].map((r) => Buffer.from(r, 'hex'))
        const [data, ...regions] = s.seq % 2 ? place(list) : list
        eps[s.from].sender.send(
          { labelOp: e, mode: s.uni ? ipmb.SelectorMode.Unicast : ipmb.SelectorMode.Multicast, ttl: s.ttl },
          { format: s.format, data },
          regions
        )
        arena.fill(0xee, 0, 4096)
      } catch (e) {
        l.why = String(e.message)
      }
      l.end = now()
      log.push(l)
    } else if (o.peer !== undefined) {
      const l = { t: 'sent', seq: o.seq, begin: now() }
      await ask({ peer: o.peer })
      log.push(l)
    } else if (o.sleep !== undefined) {
      await (o.sleep ? sleep(o.sleep) : turn())
    } else if (o.close !== undefined) {
      const k = o.close
      const l = { t: 'close', who: k, begin: now() }
      eps[k].closed = true
      eps[k].receiver.close()
      l.end = now()
      log.push(l)
    } else if (o.timeouts) {
      // every limit that is not far away passes
      for (const c of calls) if (c.limit !== null && c.limit < 1000 && !(await within(c.done, 8000))) log.push({ t: 'stuck', id: c.id })
    } else if (o.drain) {
      for (let k = 0; k < eps.length && ok; k++) {
        if (eps[k].closed) continue
        const end = now() + 8e6
        let seen = 0
        let from = 0
        const mine = () => calls.filter((c) => c.ep === k)
        for (;;) {
          for (const c of mine().slice(from)) {
            if (!c.settled && !(await within(c.done, Math.max(1, (end - now()) / 1000)))) {
              log.push({ t: 'stuck', id: c.id })
              ok = false
              break
            }
            from++
            if (c.got && c.got.format === 65535) seen++
            if (seen >= o.drain) break
          }
          if (!ok || seen >= o.drain) break
          recv(k, null)
        }
      }
    } else if (o.finish) {
      for (const e of eps) {
        if (!e.closed) {
          e.closed = true
          e.receiver.close()
        }
      }
      log.push({ t: 'finish' })
      for (const c of calls) if (!c.settled && !(await within(c.done, 8000))) log.push({ t: 'stuck', id: c.id })
      for (let k = 0; k < eps.length; k++) recv(k, k % 2 ? null : 5)
      for (const c of calls) if (!c.settled && !(await within(c.done, 8000))) log.push({ t: 'stuck', id: c.id })
    }
  }
  const cs = calls.map((c) => ({ id: c.id, ep: c.ep, limit: c.limit, begin: c.begin, end: c.end, open: c.open }))
  for (const e of eps) if (!e.closed) e.receiver.close()
  eps.length = 0
  if (global.gc && ++done % 4 === 0) {
    await turn()
    global.gc()
  }
  out({ log, calls: cs })
}

let done = 0
const queue = []
let busy = false
async function pump() {
  if (busy) return
  busy = true
  while (queue.length) await run(queue.shift())
  busy = false
}
readline.createInterface({ input: process.stdin }).on('line', (l) => {
  const o = JSON.parse(l)
  if (o.ops) {
    queue.push(o)
    pump()
  } else if (waiting) {
    const w = waiting
    waiting = null
    w(o)
  } else answers.push(o)
})
process.stdin.on('end', () => process.exit(0))
