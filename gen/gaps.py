# What a check does not decide, beyond the trusted base.
GAPS = {
    "S01": "that the encoding of the packet itself is right (S36), and that the transport delivers the bytes.",
    "S02": "that the decoder of the packet is right (S37); reads which return neither bytes nor an error for ever.",
    "S03": "what the handler does with the stream it gets.",
    "S05": "data handed to the application or to the transport, which they may touch without the lock.",
    "S06": "that a wake-up is acted on in bounded time (scheduling).",
    "S12": "that the server answers at all; what the transport does with a released stream.",
    "S17": "two registrations under the same ids (the later one wins, which no rule fixes).",
    "S29": "the yamux session itself.",
    "S30": "that the number of goroutines stays bounded.",
    "S31": "the answer given to a refused request.",
    "S32": "the write deadline, and a deadline set while a read waits.",
    "S33": "that a waiting sender is released when its peer is closed but the context lives.",
    "S36": "the helpers of the protobuf library (sizes and encodings of numbers, which are assumed to be what they are documented to be).",
    "S37": "Skip of the protobuf library (assumed to return the length of one field, at least one byte, or an error); how much memory is used for a message; field numbers of more than 32 bits, which the generated code cuts off.",
    "S38": "a message whose oneof holds a typed nil.",
    "S40": "messages which were not read yet when an error arrives (the queue of it-pushable drops them).",
    "S42": "telling a method with a single request that its call was canceled (there is no signal for it); a stream of responses which goes on after the cancel.",
    "S44": "an abort while no function to open streams is set (the request waits on); a caller which stops reading the responses (the call goes on until the server ends it).",
    "S45": "a limit for the length of a packet (the TypeScript side has none); more than two cuts within two packets (the analysis takes the pieces before the first cut as one).",
    "S46": "a reader which stops reading before the end (the call goes on until it ends by itself).",
    "S47": "a callback which throws (setting the value throws, and later callbacks are not called).",
    "S48": "a remote which is never heard at all (the idle time starts with its first message); a stream which has ended in both directions and is not closed (the messages which keep it alive go on).",
    "S49": "timers which fire early, and a clock which is set back.",
    "S50": "a reader whose duplex is closed on its own side (it waits on: nothing ends it); messages which arrive over a broadcast channel before the reader starts (they are lost, as the channel does not keep them).",
    "S51": "the muxer itself (yamux is a package), and how long a connection takes to see that the other side is gone; frames which the muxer emits after a close (over broadcast channels they can not be posted, and the muxer is aborted).",
    "S52": "how many streams are handled at once (there is no limit).",
    "S53": "the encoding itself, which is the protobuf package's; the values of enums (no schema has one).",
    "S54": "the types of the generated code beyond the names in its interfaces (the type checker needs packages which are not installed).",
    "S55": "method names which collide with the fields of the client (rpc, service, constructor), reserved words, comments, and what protoc and the plugin package do with the text.",
    "S56": "the length of the interval; a reader of EchoBidiStream which stops (the requests are still read).",
    "S57": "the length of the interval, and the texts of the errors.",
    "S58": "the pushable itself, and what JavaScript does with the array.",
    "S59": "the encoder and decoder of the library; the text form of a nil message; kinds of fields no schema of the repository has (repeated, maps, enums).",
    "S60": "what the invoker and the writer do.",
}
