import { echo } from './rules_echo.mjs'
import { messages, services, generator } from './rules_gen.mjs'
import { duplexes, connections, server } from './rules_conn.mjs'
import { channelStream, watchdog } from './rules_channel.mjs'
import { containers } from './rules_ctr.mjs'
import { incoming, outgoing } from './rules_call.mjs'
import { invoke, mux } from './rules_server.mjs'
import { client } from './rules_client.mjs'
import { framing } from './rules_frame.mjs'
import { rpcStream } from './rules_rpcstream.mjs'
export const props = {
  S40: incoming,
  S41: outgoing,
  S42: invoke,
  S43: mux,
  S44: client,
  S45: framing,
  S46: rpcStream,
  S47: containers,
  S48: channelStream,
  S49: watchdog,
  S50: duplexes,
  S51: connections,
  S52: server,
  S53: messages,
  S54: services,
  S55: generator,
  S56: echo,
}
