// Demonstrations of the defects of the TypeScript side: each fails on the
// base commit and passes on the repaired tree.
import { ServerRPC } from 'tree/srpc/server-rpc.js'
import { ClientRPC } from 'tree/srpc/client-rpc.js'
import { openRpcStream } from 'tree/rpcstream/rpcstream.js'
import { ValueCtr } from 'tree/srpc/value-ctr.js'
import { isAbortError, isStreamIdleError } from 'tree/srpc/errors.js'
import { ChannelStream } from 'tree/srpc/channel.js'
import { newBroadcastChannelDuplex } from 'tree/srpc/broadcast-channel.js'
import { MessagePortConn } from 'tree/srpc/message-port.js'
import { createMux } from 'tree/srpc/mux.js'
import { StaticHandler } from 'tree/srpc/handler.js'
import { createInvokeFn } from 'tree/srpc/invoker.js'
import { Client } from 'tree/srpc/client.js'
import { parseLengthPrefixTransform } from 'tree/srpc/packet.js'
import { createMessageType, MethodKind } from '@aptre/protobuf-es-lite'
import { Packet } from 'tree/srpc/rpcproto.pb.js'

const tests: Record<string, () => Promise<void>> = {}
const tick = () => new Promise((r) => setTimeout(r, 20))
const want = (ok: unknown, msg: string) => {
  if (!ok) throw new Error(msg)
}
const within = async (p: Promise<unknown>) => Promise.race([p.then(() => true, () => true), tick().then(() => false)])
const drain = async (it: AsyncIterable<unknown>) => {
  const r: unknown[] = []
  for await (const x of it) r.push(x)
  return r
}

tests['S40 the end of the packet stream ends the messages'] = async () => {
  const call = new ClientRPC('s', 'm')
  const r = drain(call.rpcDataSource)
  await call.sink((async function* () {})())
  want(await within(r), 'the reader waits for ever')
}
tests['S40 undecodable bytes close the call'] = async () => {
  const call = new ServerRPC(async () => null)
  await call.handleMessage(new Uint8Array([1, 2, 3])).catch(() => {})
  want(call.isClosed, 'the call is still open')
}
// aStream is a stream of packets: what is sent into it and what it delivers.
const aStream = () => {
  const sent: any[] = []
  const state = { sent, ended: false, recv: (p: any) => {}, close: () => {} }
  const queue: any[] = []
  let wake = () => {}
  const source = (async function* () {
    for (;;) {
      if (!queue.length) await new Promise<void>((r) => (wake = r))
      else {
        const p = queue.shift()
        if (!p) return
        yield Packet.toBinary(p)
      }
    }
  })()
  state.recv = (p) => (queue.push(p), wake())
  state.close = () => (queue.push(null), wake())
  const sink = async (src: any) => {
    for await (const b of src) sent.push(Packet.fromBinary(b))
    state.ended = true
  }
  return { ...{ source, sink }, state }
}
const isStart = (p: any) => p.body.case === 'callStart'
const data = (bytes: number[], complete = false, error = '') => ({ body: { case: 'callData', value: { data: new Uint8Array(bytes), dataIsZero: false, complete, error } } })

tests['S42 a call which fails is not completed as well'] = async () => {
  const T: any = createMessageType({ typeName: 't', fields: [] } as any)
  const fn = createInvokeFn({ name: 'M', I: T, O: T, kind: MethodKind.Unary } as any, (async () => {
    throw new Error('failed')
  }) as any)
  const call = new ServerRPC(async () => fn as any)
  const out = drain(call.source)
  await call.handlePacket({ body: { case: 'callStart', value: { rpcService: 's', rpcMethod: 'm', data: T.toBinary({ a: 1 }) } } } as any)
  const completions = ((await out) as any[]).filter((p) => p.body.value.complete)
  want(completions.length === 1, completions.length + ' packets complete the call')
}
tests['S43 ids which are names of built in properties'] = async () => {
  const mux = createMux()
  mux.register(new StaticHandler('svc', { M: (async () => {}) as any }))
  let asked = 0
  mux.registerLookupMethod(async () => (asked++, null))
  want((await mux.lookupMethod('constructor', 'toString')) === null, 'found a method')
  want((await mux.lookupMethod('svc', 'constructor')) === null, 'found a method')
  want(asked === 2, 'the lookup functions were not asked')
}
tests['S44 the call of a server stream ends with it'] = async () => {
  const st = aStream()
  const r = drain(new Client(async () => st as any).serverStreamingRequest('s', 'm', new Uint8Array([1])))
  await tick()
  st.state.recv(data([1]))
  st.state.recv(data([], true))
  await r
  await tick()
  want(st.state.ended, 'the stream is still open for sending')
}
tests['S44 the call of a failed request ends'] = async () => {
  const st = aStream()
  const r = new Client(async () => st as any).request('s', 'm', new Uint8Array([1]))
  await tick()
  st.state.recv(data([], true, 'failed'))
  want(await within(r), 'the request waits for ever')
  await tick()
  want(st.state.ended, 'the stream is still open for sending')
}
tests['S44 abort while the stream is opened'] = async () => {
  const st = aStream()
  const abort = new AbortController()
  let opened: any
  const r = new Client(() => new Promise((res) => (opened = res))).request('s', 'm', new Uint8Array([1]), abort.signal)
  await tick()
  abort.abort()
  opened(st)
  want(await within(r), 'the request goes on')
  await tick()
  want(!st.state.sent.some(isStart), 'the call was started')
}
tests['S44 a call which can not be started releases its stream'] = async () => {
  const st = aStream()
  const r = new Client(async () => st as any).request('', 'm', new Uint8Array([1]))
  want(await within(r), 'the request waits')
  await tick()
  want(st.state.ended, 'the stream is still open')
}
tests['S45 a stream which ends within a packet'] = async () => {
  for (const cut of [2, 4, 6]) {
    const bytes = new Uint8Array([3, 0, 0, 0, 1, 2, 3]).subarray(0, cut)
    let failed = false
    try {
      for await (const _ of parseLengthPrefixTransform()([bytes] as any)) want(false, 'a packet')
    } catch {
      failed = true
    }
    want(failed, 'the packets just end after ' + cut + ' bytes')
  }
}
tests['S46 the call of a stream which was refused'] = async () => {
  let ended = false
  const caller = (req: any) => {
    ;(async () => {
      try {
        for await (const _ of req);
      } catch {}
      ended = true
    })()
    return (async function* () {
      yield { body: { case: 'ack', value: { error: 'refused' } } }
      await new Promise(() => {})
    })()
  }
  const r = openRpcStream('c', caller as any, true)
  want(await within(r), 'the stream is open, or still waits')
  await tick()
  want(ended, 'the call is still open')
}
tests['S47 a container made with 0'] = async () => {
  const c = new ValueCtr<number>(0)
  want(c.value === 0, 'the value is ' + c.value)
}
tests['S47 a callback for a value which is there'] = async () => {
  const c = new ValueCtr<string>('x')
  let got: string[] = []
  c.waitWithCb((v) => got.push(v))
  want(got.length === 1, 'the callback was not called')
}
tests['S47 null is no abort error'] = async () => {
  want(!isAbortError(null) && !isStreamIdleError(null), 'null is an error')
}
tests['S48 messages which are falsy'] = async () => {
  const { port1, port2 } = new MessageChannel()
  const a = new ChannelStream<number>('a', port1 as any)
  const b = new ChannelStream<number>('b', port2 as any)
  b.sink([] as any).catch(() => {})
  a.sink([0, 1, 0] as any).catch(() => {})
  const got = await drain(b.source)
  want((got as any[]).join() === '0,1,0', 'received ' + (got as any[]).join())
  a.close()
  b.close()
}
tests['S48 a remote which closes before it opens'] = async () => {
  const { port1, port2 } = new MessageChannel()
  const a = new ChannelStream<number>('a', port1 as any)
  const sink = a.sink([1] as any)
  port2.postMessage({ from: 'b', closed: true })
  want(await within(sink), 'the sink waits for ever')
  a.close()
}
tests['S48 closing twice'] = async () => {
  const s = new ChannelStream<number>('a', { tx: new BroadcastChannel('s48 a'), rx: new BroadcastChannel('s48 b') } as any)
  s.close()
  s.close()
}
tests['S50 closing a broadcast channel duplex twice'] = async () => {
  const s = newBroadcastChannelDuplex<number>('s50 a', 's50 b')
  s.close()
  s.close()
}
// a muxer which does nothing
const aMuxer = () => ({
  createStreamMuxer: () => ({
    sink: async (src: any) => {
      for await (const _ of src);
    },
    source: (async function* () {
      await new Promise(() => {})
    })(),
    close: async () => {},
    abort: () => {},
  }),
})
tests['S51 closing a message port connection'] = async () => {
  const { port1, port2 } = new MessageChannel()
  const got: any[] = []
  port2.onmessage = (ev) => got.push(ev.data)
  const c = new MessagePortConn(port1 as any, undefined, { muxerFactory: aMuxer() as any })
  await tick()
  c.close()
  await tick()
  port2.close()
  want(got.length === 1 && got[0] === null, 'the remote was told ' + JSON.stringify(got))
}
export { tests, tick, want, within, drain, Packet }

let bad = 0
for (const [n, f] of Object.entries(tests)) {
  try {
    await f()
    console.log('ok   ' + n)
  } catch (e) {
    bad++
    console.log('FAIL ' + n + ': ' + (e as Error)?.message)
  }
}
process.exit(bad ? 1 : 0)
