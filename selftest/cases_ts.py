"""Mutants and refactorings of the TypeScript sources."""
MUTANTS, REFACTORINGS = [], []


def M(prop, name, *edits):
    MUTANTS.append((prop, "ts " + name, list(edits)))


def R(name, *edits):
    REFACTORINGS.append(("ts " + name, list(edits)))


C, CL, SR, CR = "srpc/common-rpc.ts", "srpc/client.ts", "srpc/server-rpc.ts", "srpc/client-rpc.ts"

# S40
M("S40", "error ignored", (C, "      this._rpcDataSource.end(new Error(packet.error))\n", "      this._rpcDataSource.end()\n"))
M("S40", "complete before error", (C, "    if (packet.error) {\n      this._rpcDataSource.end(new Error(packet.error))\n    } else if (packet.complete) {\n      this._rpcDataSource.end()\n    }", "    if (packet.complete) {\n      this._rpcDataSource.end()\n    } else if (packet.error) {\n      this._rpcDataSource.end(new Error(packet.error))\n    }"))
M("S40", "end before push", (C, "    this.pushRpcData(packet.data, packet.dataIsZero)\n    if (packet.error) {", "    if (packet.complete) {\n      this._rpcDataSource.end()\n    }\n    this.pushRpcData(packet.data, packet.dataIsZero)\n    if (packet.error) {"))
M("S40", "empty dropped", (C, "      if (!data || data.length !== 0) {\n        data = new Uint8Array(0)\n      }\n    } else if", "      if (data?.length) {\n        return\n      }\n    } else if"))
M("S40", "empty delivered", (C, "    } else if (!data || data.length === 0) {\n      return\n    }", "    } else if (!data) {\n      return\n    }"))
M("S40", "cancel always", (C, "          if (packet.body.value) {\n            await this.handleCallCancel()\n          }\n", "          await this.handleCallCancel()\n"))
M("S40", "not awaited", (C, "          for await (const msg of source) {\n            await this.handlePacket(msg)", "          for await (const msg of source) {\n            this.handlePacket(msg)"))
M("S40", "failure of the stream", (C, "      } catch (err) {\n        this.close(err as Error)\n      }\n    }\n  }\n}", "      } catch (err) {\n        this._rpcDataSource.end(err as Error)\n      }\n    }\n  }\n}"))
M("S40", "second start", (SR, "    if (this.service || this.method) {\n      throw", "    if (this.service !== undefined && this.service !== packet.rpcService) {\n      throw"))
M("S40", "empty method", (SR, "if (!this.service || !this.method) {\n      throw new Error('rpcService", "if (!this.service) {\n      throw new Error('rpcService"))
M("S40", "first message lost", (SR, "    this.pushRpcData(packet.data, packet.dataIsZero)\n", "    if (packet.data?.length) {\n      this.pushRpcData(packet.data, packet.dataIsZero)\n    }\n"))
M("S40", "swapped ids", (SR, "this.lookupMethod(this.service, this.method)", "this.lookupMethod(this.method, this.service)"))
M("S40", "not found passes", (SR, "    if (!methodDef) {\n      throw new Error(`not found: ${this.service}/${this.method}`)\n    }\n", "    if (!methodDef) {\n      return\n    }\n"))
M("S40", "client accepts start", (CR, "    throw new Error(\n      `unexpected server to client rpc: ${packet.rpcService || '<empty>'}/${packet.rpcMethod || '<empty>'}`,\n    )", "    this.pushRpcData(packet.data, packet.dataIsZero)"))
M("S40", "data before start", (SR, "    if (!this.service || !this.method) {\n      throw new Error('call start must be sent before call data')\n    }\n    return super.handleCallData(packet)", "    this.service ||= ' '\n    this.method ||= ' '\n    return super.handleCallData(packet)"))
M("S40", "invoke awaited", (SR, "    this.invokeRPC(methodDef)\n", "    await this.invokeRPC(methodDef)\n"))
M("S40", "undecodable", (C, "    } catch (err) {\n      this.close(err as Error)\n      return\n    }\n    return", "    } catch (err) {\n      return\n    }\n    return"))
M("S40", "stream end", (C, "        this._rpcDataSource.end()\n      } catch", "      } catch"))
M("S40", "no message", (C, "      if (!asError?.message) {\n        asError = new Error('error handling packet')\n      }\n", "      if (!asError?.message) {\n        return\n      }\n"))
# S41
M("S41", "complete lost", (C, "      complete: complete || false,", "      complete: !!error || (!data && (complete || false)),"))
M("S41", "error lost", (C, "      error: error || '',", "      error: (complete && error) || '',"))
M("S41", "zero flag", (C, "      dataIsZero: !!data && data.length === 0,\n      complete", "      dataIsZero: !data?.length,\n      complete"))
M("S41", "start zero flag", (CR, "      dataIsZero: !!data && data.length === 0,", "      dataIsZero: false,"))
M("S41", "close twice", (C, "    if (this.closed) {\n      return\n    }\n", ""))
M("S41", "close late flag", (C, "    this.closed = err ?? true\n", ""), (C, "    this._source.end()\n    this._rpcDataSource.end(err)\n", "    this.closed = err ?? true\n    this._source.end()\n    this._rpcDataSource.end(err)\n"))
M("S41", "close keeps source", (C, "    this._source.end()\n    this._rpcDataSource.end(err)\n", "    if (err) {\n      this._source.end()\n    }\n    this._rpcDataSource.end(err)\n"))
M("S41", "close error lost", (C, "    this._rpcDataSource.end(err)\n", "    this._rpcDataSource.end()\n"))
M("S41", "no completion of source", (C, "      await this.writeCallData(undefined, true)\n    } catch (err) {\n      this.close(err as Error)\n    }\n  }\n\n  // writePacket", "    } catch (err) {\n      this.close(err as Error)\n    }\n    await this.writeCallData(undefined, true)\n  }\n\n  // writePacket"))
M("S41", "source not in order", (C, "        await this.writeCallData(data)\n", "        if (data.length) {\n          await Promise.resolve()\n          this.writeCallData(data)\n        } else {\n          this.writeCallData(undefined)\n        }\n"))
M("S41", "close without error is a completion", (C, "      await this.writeCallCancel()\n    }\n    this._source.end()", "      await this.writeCallData(undefined, true)\n    }\n    this._source.end()"))
M("S41", "cancel false", (C, "        value: true,", "        value: !this.closed,"))
M("S41", "start without ids", (CR, "if (!this.service || !this.method) {", "if (!this.service && !this.method) {"))

R("push inline", (C, "    if (dataIsZero) {\n      if (!data || data.length !== 0) {\n        data = new Uint8Array(0)\n      }\n    } else if (!data || data.length === 0) {\n      return\n    }\n    this._rpcDataSource.push(data)", "    const msg = dataIsZero ? new Uint8Array() : data\n    if (msg && (dataIsZero || msg.byteLength > 0)) {\n      this._rpcDataSource.push(msg)\n    }"))
R("switch to if", (C, "      switch (packet?.body?.case) {\n        case 'callStart':\n          await this.handleCallStart(packet.body.value)\n          break\n        case 'callData':\n          await this.handleCallData(packet.body.value)\n          break\n        case 'callCancel':\n          if (packet.body.value) {\n            await this.handleCallCancel()\n          }\n          break\n      }", "      const { body } = packet ?? {}\n      if (body?.case === 'callStart') {\n        await this.handleCallStart(body.value)\n      } else if (body?.case === 'callData') {\n        await this.handleCallData(body.value)\n      } else if (body?.case === 'callCancel' && body.value) {\n        await this.handleCallCancel()\n      }"))
R("one loop", (C, "        if (Symbol.asyncIterator in source) {\n          // Handle async source\n          for await (const msg of source) {\n            await this.handlePacket(msg)\n          }\n        } else {\n          // Handle sync source\n          for (const msg of source) {\n            await this.handlePacket(msg)\n          }\n        }", "        for await (const msg of source) {\n          await this.handlePacket(msg)\n        }"))
R("close then", (C, "    if (err && err.message) {\n      await this.writeCallData(undefined, true, err.message)\n    } else {\n      await this.writeCallCancel()\n    }\n    this._source.end()\n    this._rpcDataSource.end(err)", "    const msg = err?.message\n    const written = msg\n      ? this.writeCallData(undefined, true, msg)\n      : this.writeCallCancel()\n    return written.then(() => {\n      this._source.end()\n      this._rpcDataSource.end(err)\n    })"))
R("handlePacket helper", (C, "      let asError = err as Error\n      if (!asError?.message) {\n        asError = new Error('error handling packet')\n      }\n      this.close(asError)\n", "      this.failCall(err)\n"), (C, "  // handleCallStart handles a CallStart packet.\n", "  private failCall(err: unknown) {\n    const hasMessage = err instanceof Error && !!err.message\n    this.close(hasMessage ? (err as Error) : new Error('error handling packet'))\n  }\n\n  // handleCallStart handles a CallStart packet.\n"))
R("iterate by hand", (C, "      for await (const data of dataSource) {\n        await this.writeCallData(data)\n      }\n", "      const it = dataSource[Symbol.asyncIterator]()\n      for (;;) {\n        const r = await it.next()\n        if (r.done) {\n          break\n        }\n        await this.writeCallData(r.value)\n      }\n"))
R("start order", (SR, "    this.service = packet.rpcService\n    this.method = packet.rpcMethod\n    if (!this.service || !this.method) {\n      throw new Error('rpcService and rpcMethod cannot be empty')\n    }\n", "    const { rpcService, rpcMethod } = packet\n    if (!rpcService || !rpcMethod) {\n      throw new Error('rpcService and rpcMethod cannot be empty')\n    }\n    ;[this.service, this.method] = [rpcService, rpcMethod]\n"))
R("server without override", (SR, "  // handleCallData handles a CallData packet.\n  public override async handleCallData(packet: Partial<CallData>) {\n    if (!this.service || !this.method) {\n      throw new Error('call start must be sent before call data')\n    }\n    return super.handleCallData(packet)\n  }\n\n", ""))
R("private fields", (C, "_rpcDataSource", "_rpcDataSource"))
R("start helper", (CR, "    const callStart: CompleteMessage<CallStart> = {\n      rpcService: this.service,\n      rpcMethod: this.method,\n      data: data || new Uint8Array(0),\n      dataIsZero: !!data && data.length === 0,\n    }\n", "    const value = data ?? new Uint8Array()\n    const callStart: CompleteMessage<CallStart> = {\n      ...{ rpcService: this.service, rpcMethod: this.method },\n      data: value,\n      dataIsZero: data !== undefined && data !== null && value.length < 1,\n    }\n"))

IV, MX, HD, MS, PU = "srpc/invoker.ts", "srpc/mux.ts", "srpc/handler.ts", "srpc/message.ts", "srpc/pushable.ts"
# S42
M("S42", "error and completion", (IV, "      responseSink.end(asError)\n", "      responseSink.end()\n"))
M("S42", "unary as stream", (IV, "    if (\n      methodInfo.kind === MethodKind.ClientStreaming ||\n", "    if (\n      methodInfo.kind === MethodKind.ServerStreaming ||\n      methodInfo.kind === MethodKind.ClientStreaming ||\n"))
M("S42", "bidi request single", (IV, "      methodInfo.kind === MethodKind.ClientStreaming ||\n      methodInfo.kind === MethodKind.BiDiStreaming\n    ) {\n      // use", "      methodInfo.kind === MethodKind.ClientStreaming\n    ) {\n      // use"))
M("S42", "last request", (IV, "        requestArg = msg\n        break\n", "        requestArg = msg\n"))
M("S42", "empty request passes", (IV, "    if (!requestArg) {\n      throw new Error('request object was empty')\n    }\n", "    requestArg ??= {}\n"))
M("S42", "response undefined", (IV, "      if (!responseObj) {\n        throw new Error('return value was undefined')\n      }\n", "      if (!responseObj) {\n        responseSink.end()\n        return\n      }\n"))
M("S42", "no end", (IV, "        responseSink.push(responseMsg)\n        responseSink.end()\n", "        responseSink.push(responseMsg)\n"))
M("S42", "empty response ok", (IV, "        if (!responseMsg) {\n          throw new Error('expected non-empty response object')\n        }\n        responseSink.push(responseMsg)\n", "        if (responseMsg) {\n          responseSink.push(responseMsg)\n        }\n"))
M("S42", "encode with I", (IV, "buildEncodeMessageTransform(methodInfo.O)", "buildEncodeMessageTransform(methodInfo.I as any)"))
M("S42", "error swallowed", (IV, "      throw asError\n", "      if (asError.name !== 'AbortError') {\n        return\n      }\n      throw asError\n"), (IV, "      responseSink.end(asError)\n", "      responseSink.end()\n"))
M("S42", "sink completes on error", (SR, "        await this.writeCallData(undefined, true)\n        this.close()\n      } catch (err) {\n        this.close(err as Error)\n      }", "      } catch (err) {\n        this.close(err as Error)\n      } finally {\n        await this.writeCallData(undefined, true)\n        this.close()\n      }"))
M("S42", "sink not closed", (SR, "        await this.writeCallData(undefined, true)\n        this.close()\n", "        await this.writeCallData(undefined, true)\n"))
M("S42", "sink batches", (SR, "        for await (const msg of source) {\n          await this.writeCallData(msg)\n        }\n", "        let prev: Uint8Array | undefined\n        for await (const msg of source) {\n          if (prev) {\n            await this.writeCallData(prev)\n          }\n          prev = msg\n        }\n        if (prev) {\n          await this.writeCallData(prev)\n        }\n"))
M("S42", "completion with last", (SR, "        await this.writeCallData(undefined, true)\n        this.close()\n", "        this.close()\n"))
M("S42", "invoke error ignored", (SR, "      await invokeFn(this.rpcDataSource, dataSink)\n    } catch (err) {\n      this.close(err as Error)\n    }", "      await invokeFn(this.rpcDataSource, dataSink)\n    } catch (err) {\n      if (!this.isClosed) {\n        this.close()\n      }\n    }"))
M("S42", "stream error ends", (PU, "  } catch (err) {\n    out.end(err as Error)\n  }\n}\n\nexport function buildPushableSink", "  } catch (err) {\n    out.end()\n  }\n}\n\nexport function buildPushableSink"))
M("S42", "response array skipped", (MS, "        yield def.toBinary(pkt)\n", "        const data = def.toBinary(pkt)\n        if (data.length) {\n          yield data\n        }\n"))
M("S42", "decode skips empty", (MS, "        yield* [decode(pkt)]\n", "        if (pkt.length) {\n          yield* [decode(pkt)]\n        }\n"))
M("S42", "sync throw", (IV, "    // Call the implementation.\n    try {\n      const responseObj = methodProto(requestArg)\n", "    // Call the implementation.\n    const responseObj = methodProto(requestArg)\n    try {\n"))
MUTANTS.pop()  # equivalent: invokeRPC closes the call with it
R("invoke sync throw outside", (IV, "    // Call the implementation.\n    try {\n      const responseObj = methodProto(requestArg)\n", "    // Call the implementation.\n    const responseObj = methodProto(requestArg)\n    try {\n"))
REFACTORINGS.pop()  # differs for errors without a text
R("invoke helper", (IV, "    // build the request argument.\n    let requestArg: any\n    if (\n      methodInfo.kind === MethodKind.ClientStreaming ||\n      methodInfo.kind === MethodKind.BiDiStreaming\n    ) {\n      // use the request source as the argument.\n      requestArg = requestSource\n    } else {\n      // receive a single message for the argument.\n      for await (const msg of requestSource) {\n        requestArg = msg\n        break\n      }\n    }\n", "    const requestArg: any = isRequestStream(methodInfo.kind)\n      ? requestSource\n      : await firstOf(requestSource)\n"), (IV, "// createInvokeFn builds", "function isRequestStream(kind: MethodKind): boolean {\n  switch (kind) {\n    case MethodKind.ClientStreaming:\n    case MethodKind.BiDiStreaming:\n      return true\n    default:\n      return false\n  }\n}\n\nasync function firstOf<T>(source: AsyncIterable<T>): Promise<T | undefined> {\n  for await (const msg of source) {\n    return msg\n  }\n  return undefined\n}\n\n// createInvokeFn builds"))
R("invoke no pipe", (IV, "    pipe(responseSink, buildEncodeMessageTransform(methodInfo.O), dataSink)\n", "    const encode = buildEncodeMessageTransform<O>(methodInfo.O)\n    dataSink(encode(responseSink))\n"), (IV, "    const requestSource = pipe(dataSource, requestDecode)\n", "    const requestSource = requestDecode(dataSource)\n"))
R("invoke stream by hand", (IV, "        return writeToPushable(response as AsyncIterable<O>, responseSink)\n", "        for await (const msg of response) {\n          responseSink.push(msg)\n        }\n        responseSink.end()\n"))
R("message yields", (MS, "        yield* [decode(pkt)]\n", "        yield decode(pkt)\n"), (MS, "          yield* [decode(p)]\n", "          yield decode(p)\n"))
R("sink promise", (SR, "    const dataSink = this._createDataSink()\n    try {\n      await invokeFn(this.rpcDataSource, dataSink)\n    } catch (err) {\n      this.close(err as Error)\n    }\n", "    return invokeFn(this.rpcDataSource, this._createDataSink()).catch((err) =>\n      this.close(err as Error),\n    )\n"))
# S43
M("S43", "plain object", (MX, "  private services: { [id: string]: staticMuxMethods } = Object.create(null)\n", "  private services: { [id: string]: staticMuxMethods } = {}\n"))
M("S43", "plain methods", (MX, "this.services[serviceID] || Object.create(null)", "this.services[serviceID] || {}"))
M("S43", "handler own", (HD, "    if (!Object.prototype.hasOwnProperty.call(this.methods, methodID)) {\n      return null\n    }\n", ""))
M("S43", "service replaced", (MX, "this.services[serviceID] || Object.create(null)", "Object.create(null)"))
M("S43", "first wins", (MX, "      serviceMethods[methodID] = handler\n", "      serviceMethods[methodID] ||= handler\n"))
M("S43", "no fallback", (MX, "      if (invokeFn) {\n        return invokeFn\n      }\n    }\n\n    return await this.lookupViaLookups", "      if (invokeFn || this.services[serviceID]) {\n        return invokeFn\n      }\n    }\n\n    return await this.lookupViaLookups"))
M("S43", "lookups only with service", (MX, "    return await this.lookupViaLookups(serviceID, methodID)\n  }", "    return serviceID\n      ? await this.lookupViaLookups(serviceID, methodID)\n      : null\n  }"))
M("S43", "last lookup", (MX, "    for (const lookupMethod of this.lookups) {\n", "    for (const lookupMethod of [...this.lookups].reverse()) {\n"))
M("S43", "errors hidden", (MX, "      const invokeFn = await lookupMethod(serviceID, methodID)\n", "      const invokeFn = await lookupMethod(serviceID, methodID).catch(() => null)\n"))
M("S43", "one lookup", (MX, "    this.lookups.push(lookupMethod)\n", "    this.lookups = [lookupMethod]\n"))
M("S43", "empty id", (MX, "    if (!serviceID) {\n      throw new Error('service id cannot be empty')\n    }\n", "    if (serviceID === undefined) {\n      throw new Error('service id cannot be empty')\n    }\n"))
M("S43", "unbound", (MX, "    return this._lookupMethod.bind(this)\n", "    return this._lookupMethod\n"))
M("S43", "handler service", (HD, "    if (serviceID && serviceID !== this.service) {", "    if (serviceID !== this.service) {"))
M("S43", "handler any service", (HD, "    if (serviceID && serviceID !== this.service) {\n      return null\n    }\n", ""))
M("S43", "impl unbound", (HD, "    methodProto = methodProto.bind(impl)\n", ""))
M("S43", "missing method", (HD, "    if (!methodProto) {\n      continue\n    }\n", "    if (!methodProto) {\n      break\n    }\n"))
M("S43", "own methods", (HD, "    let methodProto = impl[methodName]\n", "    let methodProto = Object.prototype.hasOwnProperty.call(impl, methodName)\n      ? impl[methodName]\n      : undefined\n"))
M("S43", "service id ignored", (HD, "  serviceID = serviceID || definition.typeName\n", "  serviceID = definition.typeName || serviceID\n"))
M("S43", "service id null", (HD, "  serviceID = serviceID || definition.typeName\n", "  serviceID = serviceID ?? definition.typeName\n"))
R("mux maps", (MX, "  private services: { [id: string]: staticMuxMethods } = Object.create(null)\n", "  private services = new Map<string, Map<string, Handler>>()\n"),
  (MX, "    const serviceMethods: staticMuxMethods =\n      this.services[serviceID] || Object.create(null)\n    const methodIDs = handler.getMethodIDs()\n    for (const methodID of methodIDs) {\n      serviceMethods[methodID] = handler\n    }\n    this.services[serviceID] = serviceMethods\n", "    let serviceMethods = this.services.get(serviceID)\n    if (!serviceMethods) {\n      serviceMethods = new Map()\n      this.services.set(serviceID, serviceMethods)\n    }\n    for (const methodID of handler.getMethodIDs()) {\n      serviceMethods.set(methodID, handler)\n    }\n"),
  (MX, "    const serviceMethods = this.services[serviceID]\n    if (!serviceMethods) {\n      return null\n    }\n    const handler = serviceMethods[methodID]\n    if (!handler) {\n      return null\n    }\n    return await handler.lookupMethod(serviceID, methodID)\n", "    const handler = this.services.get(serviceID)?.get(methodID)\n    return handler ? handler.lookupMethod(serviceID, methodID) : null\n"))
R("mux arrow", (MX, "    return this._lookupMethod.bind(this)\n", "    return (serviceID, methodID) => this._lookupMethod(serviceID, methodID)\n"), (MX, "    for (const lookupMethod of this.lookups) {\n      const invokeFn = await lookupMethod(serviceID, methodID)\n      if (invokeFn) {\n        return invokeFn\n      }\n    }\n\n    return null\n", "    let found: InvokeFn | null = null\n    for (let i = 0; i < this.lookups.length && !found; i++) {\n      found = await this.lookups[i](serviceID, methodID)\n    }\n    return found ?? null\n"))
R("create handler entries", (HD, "  for (const methodInfo of Object.values(definition.methods)) {\n    const methodName = methodInfo.name\n    let methodProto = impl[methodName]\n    if (!methodProto) {\n      continue\n    }\n    methodProto = methodProto.bind(impl)\n    methodMap[methodName] = createInvokeFn(methodInfo, methodProto)\n  }\n", "  Object.entries(definition.methods).forEach(([, methodInfo]) => {\n    const { name } = methodInfo\n    if (impl[name]) {\n      methodMap[name] = createInvokeFn(methodInfo, (req: any) => impl[name](req))\n    }\n  })\n"))
R("handler entries", (HD, "    if (!Object.prototype.hasOwnProperty.call(this.methods, methodID)) {\n      return null\n    }\n    return this.methods[methodID] || null\n", "    return Object.hasOwn(this.methods, methodID) ? this.methods[methodID] : null\n"))

# S44
_SS = "        await writeToPushable(call.rpcDataSource, serverData)\n        call.close()\n"
_AB = "    abortSignal?.addEventListener('abort', () => {\n      call.writeCallCancel()\n      call.close(new Error(ERR_RPC_ABORT))\n    })\n"
_RR = "      for await (const data of call.rpcDataSource) {\n        call.close()\n        return data\n      }\n      throw new Error('empty response')\n    } catch (err) {\n      call.close(err as Error)\n      throw err\n    }"
M("S44", "server stream not closed", (CL, _SS, "        await writeToPushable(call.rpcDataSource, serverData)\n"))
M("S44", "empty response is empty", (CL, "      throw new Error('empty response')\n    } catch", "      call.close()\n      return new Uint8Array(0)\n    } catch"))
M("S44", "error keeps open", (CL, "    } catch (err) {\n      call.close(err as Error)\n      throw err\n    }\n  }\n\n  // startRpc", "    } catch (err) {\n      throw err\n    }\n  }\n\n  // startRpc"))
M("S44", "no close after response", (CL, "        call.close()\n        return data\n", "        return data\n"))
M("S44", "abort before", (CL, "    if (abortSignal?.aborted) {\n      throw new Error(ERR_RPC_ABORT)\n    }\n", ""))
M("S44", "abort opening", (CL, "    if (abortSignal?.aborted) {\n      // aborted while opening: the stream is closed when the source ends.\n      stream.sink([]).catch(() => {})\n      throw new Error(ERR_RPC_ABORT)\n    }\n", ""))
M("S44", "abort opening leaks", (CL, "      stream.sink([]).catch(() => {})\n      throw", "      throw"))
M("S44", "abort only cancels", (CL, _AB, "    abortSignal?.addEventListener('abort', () => {\n      call.writeCallCancel()\n    })\n"))
M("S44", "abort closes cleanly", (CL, _AB, "    abortSignal?.addEventListener('abort', () => {\n      call.close()\n    })\n"))
M("S44", "abort not heard for streams", (CL, "    this.startRpc(service, method, null, abortSignal)\n      .then", "    this.startRpc(service, method, null)\n      .then"))
M("S44", "requests dropped", (CL, "    const call = await this.startRpc(service, method, null, abortSignal)\n    call.writeCallDataFromSource(data)", "    const call = await this.startRpc(service, method, new Uint8Array(0), abortSignal)\n    call.writeCallDataFromSource(data)"))
M("S44", "bidi data after responses", (CL, "        call.writeCallDataFromSource(data).catch(handleErr)\n        try {\n          for await (const message of call.rpcDataSource) {\n            serverData.push(message)\n          }\n", "        try {\n          for await (const message of call.rpcDataSource) {\n            serverData.push(message)\n          }\n          call.writeCallDataFromSource(data).catch(handleErr)\n"))
M("S44", "bidi error ends", (CL, "          serverData.end(err)\n          call.close(err)\n", "          serverData.end()\n          call.close(err)\n"))
M("S44", "bidi not closed", (CL, "          serverData.end()\n          call.close()\n", "          serverData.end()\n"))
M("S44", "open error hidden", (CL, "      .catch((err) => serverData.end(err))\n    return serverData\n  }\n\n  // bidi", "      .catch(() => serverData.end())\n    return serverData\n  }\n\n  // bidi"))
M("S44", "pipe error", (CL, "      .catch((err) => call.close(err))\n      .then(() => call.close())", "      .catch(() => {})\n      .then(() => call.close())"))
M("S44", "two streams", (CL, "    const stream = await openStreamFn()\n", "    const stream = await openStreamFn().catch(() => openStreamFn())\n"))
M("S44", "open fn kept", (CL, "    this.openStreamCtr.set(openStreamFn || undefined)\n", "    if (openStreamFn) {\n      this.openStreamCtr.set(openStreamFn)\n    }\n"))
M("S44", "empty chunk skipped", (CL, "            serverData.push(message)\n", "            if (message.length) {\n              serverData.push(message)\n            }\n"))
M("S44", "swapped", (CL, "new ClientRPC(rpcService, rpcMethod)", "new ClientRPC(rpcMethod, rpcService)"))
M("S44", "start falsy", (CL, "      await call.writeCallStart(data ?? undefined)\n", "      await call.writeCallStart(data?.length ? data : undefined)\n"))
M("S44", "start failure leaks", (CL, "    } catch (err) {\n      call.close(err as Error)\n      throw err\n    }\n    return call", "    } catch (err) {\n      throw err\n    }\n    return call"))
R("client finally", (CL, _RR, "      const it = call.rpcDataSource[Symbol.asyncIterator]()\n      const { done, value } = await it.next()\n      if (done) {\n        throw new Error('empty response')\n      }\n      call.close()\n      return value\n    } catch (err) {\n      call.close(err as Error)\n      throw err\n    }"))
R("client async stream", (CL, "    this.startRpc(service, method, data, abortSignal)\n      .then(async (call) => {\n" + _SS + "      })\n      .catch((err) => serverData.end(err))\n    return serverData\n", "    const run = async () => {\n      try {\n        const call = await this.startRpc(service, method, data, abortSignal)\n" + _SS + "      } catch (err) {\n        serverData.end(err as Error)\n      }\n    }\n    run()\n    return serverData\n"))
R("client generator", (CL, "    const serverData: Pushable<Uint8Array> = pushable({ objectMode: true })\n    this.startRpc(service, method, data, abortSignal)\n      .then(async (call) => {\n" + _SS + "      })\n      .catch((err) => serverData.end(err))\n    return serverData\n", "    const serverData: Pushable<Uint8Array> = pushable({ objectMode: true })\n    this.pumpResponses(this.startRpc(service, method, data, abortSignal), serverData)\n    return serverData\n"), (CL, "  // readResponse reads", "  private async pumpResponses(\n    starting: Promise<ClientRPC>,\n    out: Pushable<Uint8Array>,\n  ) {\n    let call: ClientRPC | undefined\n    try {\n      call = await starting\n      for await (const data of call.rpcDataSource) {\n        out.push(data)\n      }\n      out.end()\n    } catch (err) {\n      out.end(err as Error)\n    } finally {\n      call?.close()\n    }\n  }\n\n  // readResponse reads"))
R("client once", (CL, _AB, "    const onAbort = () => {\n      call.close(new Error(ERR_RPC_ABORT))\n    }\n    abortSignal?.addEventListener('abort', onAbort, { once: true })\n"))
R("client pipe split", (CL, "    pipe(stream, decodePacketSource, call, encodePacketSource, stream)\n      .catch((err) => call.close(err))\n      .then(() => call.close())\n", "    const incoming = call.sink(decodePacketSource(stream.source))\n    const outgoing = stream.sink(encodePacketSource(call.source))\n    Promise.all([incoming, outgoing]).then(\n      () => call.close(),\n      (err) => call.close(err),\n    )\n"))

# S45
PK, ST, AL, ME, PU = "srpc/packet.ts", "srpc/stream.ts", "srpc/array-list.ts", "srpc/message.ts", "srpc/pushable.ts"
_DEC = "    while (buffer.length >= lengthDecoder.bytes) {\n      const messageLength = lengthDecoder(buffer)\n      const totalLength = lengthDecoder.bytes + messageLength\n\n      if (buffer.length < totalLength) break // Wait for more data if the full message hasn't arrived.\n\n      // Extract the message excluding the length prefix.\n      const message = buffer.sublist(lengthDecoder.bytes, totalLength)\n      yield message\n\n      // Remove the processed message from the buffer.\n      buffer.consume(totalLength)\n    }\n"
_EOS = "  if (buffer.length > 0) {\n    throw new Error('unexpected end of stream')\n  }\n"
M("S45", "truncation", (PK, _EOS, ""))
M("S45", "truncated header", (PK, "  if (buffer.length > 0) {\n    throw", "  if (buffer.length > lengthDecoder.bytes) {\n    throw"))
M("S45", "one per chunk", (PK, "    while (buffer.length >= lengthDecoder.bytes) {", "    if (buffer.length >= lengthDecoder.bytes) {"), (PK, "      if (buffer.length < totalLength) break", "      if (buffer.length < totalLength) continue"))
M("S45", "needs more than header", (PK, "while (buffer.length >= lengthDecoder.bytes)", "while (buffer.length > lengthDecoder.bytes)"))
M("S45", "needs one more", (PK, "if (buffer.length < totalLength) break", "if (buffer.length <= totalLength) break"))
M("S45", "compares body length", (PK, "if (buffer.length < totalLength) break", "if (buffer.length < messageLength) break"))
M("S45", "consume body only", (PK, "buffer.consume(totalLength)", "buffer.consume(messageLength)"))
M("S45", "header in message", (PK, "buffer.sublist(lengthDecoder.bytes, totalLength)", "buffer.sublist(0, totalLength)"))
M("S45", "short message", (PK, "buffer.sublist(lengthDecoder.bytes, totalLength)", "buffer.sublist(lengthDecoder.bytes, messageLength)"))
M("S45", "empty not delivered", (PK, "      yield message\n", "      if (messageLength > 0) yield message\n"))
M("S45", "empty not encoded", (PK, "    // Encode the length of the chunk.\n", "    if (chunk.length === 0) continue\n"))
M("S45", "big endian read", (PK, "data.getUint32(0, true)", "data.getUint32(0)"))
M("S45", "big endian write", (PK, "data.setUint32(0, value, true)", "data.setUint32(0, value, false)"))
M("S45", "signed read", (PK, "data.getUint32(0, true)", "data.getInt32(0, true)"))
M("S45", "16 bits", (PK, "  data.setUint32(0, value, true)\n", "  data.setUint16(0, value, true)\n"))
M("S45", "small header accepted", (PK, "  if (data.length < 4) {\n    throw RangeError('Could not decode int32BE')\n  }\n", "  if (data.length < 4) {\n    return 0\n  }\n"))
M("S45", "manual signed", (PK, "    value = value * 256 + data[i]\n", "    value = (value << 8) | data[i]\n"))
M("S45", "manual order", (PK, "for (let i = nbytes - 1; i >= 0; i--)", "for (let i = 0; i < nbytes; i++)"))
M("S45", "encode shift", (PK, "    value = (value - b) / 256\n", "    value = value >> 8\n"), (PK, "value & 0xff", "value % 256"))
M("S45", "encode three", (PK, "index < output.length; index++", "index < output.length - 1; index++"))
M("S45", "prepend total", (PK, "const msgLenData = encodeUint32Le(msgLen)\n", "const msgLenData = encodeUint32Le(msgLen + 4)\n"))
M("S45", "prepend place", (PK, "merged.set(msgData, msgLenData.length)", "merged.set(msgData, 0)"))
M("S45", "chunk bytes offset", (PK, "    // Encode the length of the chunk.\n    const length = chunk instanceof Uint8Array ? chunk.length : chunk.byteLength", "    const length = chunk instanceof Uint8Array ? chunk.buffer.byteLength : chunk.byteLength"))
M("S45", "list first piece", (AL, "yield obj.subarray()", "yield [...obj][0]"))
M("S45", "list passed", (AL, "      if (isUint8ArrayList(obj)) {\n        yield obj.subarray()\n      } else {\n        yield obj\n      }", "      yield obj as Uint8Array"))
M("S45", "stream not closed on error", (ST, "        .catch((err) => stream.close(err))\n        .then(() => stream.close())", "        .then(() => stream.close())"))
M("S45", "stream not closed", (ST, "        .then(() => stream.close())", ""))
M("S45", "no combine", (ST, "      combineUint8ArrayListTransform(),\n    ),", "    ) as any,"))
M("S45", "no framing out", (ST, "pipe(source, prependLengthPrefixTransform(), stream)", "pipe(source, stream)"))
M("S45", "decode array first", (ME, "        for (const p of pkt) {\n          yield* [decode(p)]\n        }", "        if (pkt.length) {\n          yield* [decode(pkt[0])]\n        }"))
M("S45", "decode error hidden", (ME, "      } else {\n        yield* [decode(pkt)]\n      }", "      } else {\n        try {\n          yield* [decode(pkt)]\n        } catch {\n          continue\n        }\n      }"))
M("S45", "empty message skipped", (ME, "      } else {\n        yield* [decode(pkt)]", "      } else if (pkt.length) {\n        yield* [decode(pkt)]"))
M("S45", "encode array order", (ME, "        for (const p of pkt) {\n          yield def.toBinary(p)", "        for (const p of pkt.reverse()) {\n          yield def.toBinary(p)"))
M("S45", "queue error lost", (PU, "    out.end()\n  } catch (err) {\n    out.end(err as Error)", "    out.end()\n  } catch {\n    out.end()"))
M("S45", "queue not ended", (PU, "      target.end()\n    } catch", "    } catch"))
M("S45", "queue sink error", (PU, "    } catch (err) {\n      target.end(err as Error)\n    }", "    } finally {\n      target.end()\n    }"))
R("u32 shifts", (PK, "  let value = 0\n  let nbytes = 4\n  if (data.length < nbytes) {\n    nbytes = data.length\n  }\n  for (let i = nbytes - 1; i >= 0; i--) {\n    value = value * 256 + data[i]\n  }\n  return value\n", "  const at = (i: number) => (i < data.length ? data[i] : 0)\n  return (at(0) | (at(1) << 8) | (at(2) << 16) | (at(3) << 24)) >>> 0\n"),
  (PK, "  for (let index = 0; index < output.length; index++) {\n    const b = value & 0xff\n    output[index] = b\n    value = (value - b) / 256\n  }\n", "  output[0] = value & 0xff\n  output[1] = (value >>> 8) & 0xff\n  output[2] = (value >>> 16) & 0xff\n  output[3] = (value >>> 24) & 0xff\n"))
R("u32 view", (PK, "  for (let index = 0; index < output.length; index++) {\n    const b = value & 0xff\n    output[index] = b\n    value = (value - b) / 256\n  }\n", "  new DataView(output.buffer).setUint32(0, value, true)\n"), (PK, "  const data = new Uint8ArrayList(new Uint8Array(4))\n  data.setUint32(0, value, true)\n  return data\n", "  return new Uint8ArrayList(encodeUint32Le(value))\n"), (PK, "  return data.getUint32(0, true)\n", "  return decodeUint32Le(data.subarray(0, 4))\n"))
R("decode loop", (PK, _DEC, "    for (;;) {\n      const header = lengthDecoder.bytes\n      if (buffer.length < header) break\n      const end = header + lengthDecoder(buffer)\n      if (buffer.length < end) break\n      buffer.consume(header)\n      const message = buffer.sublist(0, end - header)\n      buffer.consume(end - header)\n      yield message\n    }\n"), (PK, _EOS, "  if (buffer.length !== 0) throw new Error('truncated packet')\n"))
R("decode keeps length", (PK, "  const buffer = new Uint8ArrayList()\n\n  for", "  const buffer = new Uint8ArrayList()\n  let want = -1\n\n  for"), (PK, _DEC, "    while (true) {\n      if (want < 0) {\n        if (buffer.length < lengthDecoder.bytes) break\n        want = lengthDecoder(buffer)\n        buffer.consume(lengthDecoder.bytes)\n      }\n      if (buffer.length < want) break\n      const message = buffer.sublist(0, want)\n      buffer.consume(want)\n      want = -1\n      yield message\n    }\n"), (PK, "  if (buffer.length > 0) {\n    throw", "  if (buffer.length > 0 || want >= 0) {\n    throw"))
R("encode concat", (PK, "    const length = chunk instanceof Uint8Array ? chunk.length : chunk.byteLength\n    const lengthEncoded = lengthEncoder(length)\n", "    const lengthEncoded = lengthEncoder(chunk.length)\n"), (PK, "    yield new Uint8ArrayList(lengthEncoded, chunk)\n", "    const out = new Uint8ArrayList()\n    out.append(lengthEncoded)\n    out.append(chunk)\n    yield out\n"))
R("prepend spread", (PK, "  const merged = new Uint8Array(msgLen + msgLenData.length)\n  merged.set(msgLenData)\n  merged.set(msgData, msgLenData.length)\n  return merged\n", "  return new Uint8ArrayList(msgLenData, msgData).slice()\n"))
R("combine ternary", (AL, "      if (isUint8ArrayList(obj)) {\n        yield obj.subarray()\n      } else {\n        yield obj\n      }\n", "      yield obj instanceof Uint8Array ? obj : obj.slice()\n"))
R("stream finally", (ST, "      await pipe(source, prependLengthPrefixTransform(), stream)\n        .catch((err) => stream.close(err))\n        .then(() => stream.close())\n", "      try {\n        await stream.sink(prependLengthPrefixTransform()(source))\n      } catch {\n        // closed below\n      } finally {\n        await stream.close()\n      }\n"))
R("transforms flat", (ME, "      if (Array.isArray(pkt)) {\n        for (const p of pkt) {\n          yield* [decode(p)]\n        }\n      } else {\n        yield* [decode(pkt)]\n      }\n", "      const list = Array.isArray(pkt) ? pkt : [pkt]\n      yield* list.map((p) => decode(p))\n"), (ME, "      if (Array.isArray(pkt)) {\n        for (const p of pkt) {\n          yield def.toBinary(p)\n        }\n      } else {\n        yield def.toBinary(pkt)\n      }\n", "      for (const p of ([] as T[]).concat(pkt)) {\n        yield def.toBinary(p)\n      }\n"))
R("queue shared", (PU, "    try {\n      if (Symbol.asyncIterator in source) {\n        for await (const pkt of source) {\n          target.push(pkt)\n        }\n      } else {\n        for (const pkt of source) {\n          target.push(pkt)\n        }\n      }\n      target.end()\n    } catch (err) {\n      target.end(err as Error)\n    }\n", "    await writeToPushable(source as AsyncIterable<T>, target)\n"), (PU, "  try {\n    for await (const data of dataSource) {\n      out.push(data)\n    }\n    out.end()\n  } catch (err) {\n    out.end(err as Error)\n  }\n", "  let error: Error | undefined\n  try {\n    for await (const data of dataSource) {\n      out.push(data)\n    }\n  } catch (err) {\n    error = err as Error\n  }\n  out.end(error)\n"))

# S46
RS = "rpcstream/rpcstream.ts"
M("S46", "release", (RS, "      packetTx.end(err as Error)\n      throw err\n    }\n  }\n", "      throw err\n    }\n  }\n"))
M("S46", "release on bad packets only", (RS, "      await readAck(packetIt)\n    } catch (err) {", "      await readAck(packetIt)\n    } catch (err) {\n      if (!(err as Error).message.startsWith('rpcstream: ')) throw err"))
M("S46", "no init", (RS, "  packetTx.push({\n    body: {\n      case: 'init',\n      value: { componentId },\n    },\n  })\n", ""))
M("S46", "init if named", (RS, "  // write the component id\n  packetTx.push({", "  // write the component id\n  if (componentId) packetTx.push({"))
M("S46", "never waits", (RS, "  if (waitAck) {", "  if (waitAck === undefined) {"))
M("S46", "ack error ignored", (RS, "  const errStr = ackBody.value?.error\n  if (errStr) {\n    throw new Error(`rpcstream: remote: ${errStr}`)\n  }\n", ""))
M("S46", "ack of any kind", (RS, "if (!ackBody || ackBody.case !== 'ack') {", "if (!ackBody) {"), (RS, "const errStr = ackBody.value?.error\n", "const errStr = (ackBody.value as any)?.error\n"))
M("S46", "closed is ack", (RS, "  if (ackPacketIt.done) {\n    throw new Error(`rpcstream: closed before ack packet`)\n  }\n", "  if (ackPacketIt.done) {\n    return\n  }\n"))
M("S46", "component lost", (RS, "getter(initRpcStreamPacket.body.value.componentId ?? '')", "getter('')"))
M("S46", "any first packet", (RS, "  if (initRpcStreamPacket?.body?.case !== 'init') {\n    throw new Error('expected init packet')\n  }\n", "  if (!initRpcStreamPacket?.body) {\n    throw new Error('expected init packet')\n  }\n"), (RS, "initRpcStreamPacket.body.value.componentId ??", "(initRpcStreamPacket.body.value as any).componentId ??"))
M("S46", "getter error unanswered", (RS, "    err = errAny as Error\n    if (!err) {", "    err = errAny as Error\n    throw err\n    if (!err) {"))
M("S46", "empty error is success", (RS, "    } else if (!err.message) {\n      err = new Error(`rpc getter failed: ${err}`)\n    }\n", "    }\n"))
M("S46", "not found is success", (RS, "  if (!handler && !err) {\n    err = new Error('not implemented')\n  }\n", ""))
M("S46", "ends without error", (RS, "  if (err) {\n    throw err\n  }\n\n  // build the outgoing", "  if (err) {\n    return\n  }\n\n  // build the outgoing"))
M("S46", "no ack", (RS, "  yield* [\n    {\n      body: {\n        case: 'ack' as const,", "  if (err) yield* [\n    {\n      body: {\n        case: 'ack' as const,"))
M("S46", "handler error lost", (RS, "    .catch((err) => packetTx.end(err))\n    .then(() => packetTx.end())", "    .catch(() => {})\n    .then(() => packetTx.end())"))
M("S46", "handler end lost", (RS, "    .catch((err) => packetTx.end(err))\n    .then(() => packetTx.end())", "    .catch((err) => packetTx.end(err))"))
M("S46", "handler awaited", (RS, "  handler!(rpcStream)\n    .catch", "  await handler!(rpcStream)\n    .catch"))
M("S46", "empty data not sent", (RS, "        for await (const arr of source) {\n", "        for await (const arr of source) {\n          if (!arr.length) continue\n"))
M("S46", "empty data not received", (RS, "            yield body.value\n            break", "            if (body.value.length) yield body.value\n            break"))
M("S46", "sink does not end", (RS, "        this._packetTx.end()\n      } catch", "      } catch"))
M("S46", "sink error is end", (RS, "        this._packetTx.end(err as Error)\n", "        this._packetTx.end()\n"))
M("S46", "late error ignored", (RS, "            if (body.value.error?.length) {\n              throw new Error(body.value.error)\n            }\n", ""))
M("S46", "empty packet ends", (RS, "        if (!body) {\n          continue\n        }", "        if (!body) {\n          return\n        }"))
M("S46", "unknown ends", (RS, "          case 'data':\n            yield body.value\n            break\n", "          case 'data':\n            yield body.value\n            break\n          default:\n            return\n"))
M("S46", "one call", (RS, "  return async (): Promise<PacketStream> => {\n    return openRpcStream(componentId, caller)\n  }", "  const opened = openRpcStream(componentId, caller)\n  return () => opened"))
M("S46", "build waits", (RS, "    return openRpcStream(componentId, caller)\n", "    return openRpcStream(componentId, caller, true)\n"))
M("S46", "stream error swallowed", (RS, "      while (true) {\n        const msgIt = await packetRx.next()\n        if (msgIt.done) {\n          return\n        }", "      while (true) {\n        const msgIt = await packetRx.next().catch(() => ({ done: true as const, value: undefined }))\n        if (msgIt.done) {\n          return\n        }"))
R("rpc stream read", (RS, "      while (true) {\n        const msgIt = await packetRx.next()\n        if (msgIt.done) {\n          return\n        }\n        const value = msgIt.value\n        const body = value?.body\n        if (!body) {\n          continue\n        }\n        switch (body.case) {\n          case 'ack':\n            if (body.value.error?.length) {\n              throw new Error(body.value.error)\n            }\n            break\n          case 'data':\n            yield body.value\n            break\n        }\n      }\n", "      for (let it = await packetRx.next(); !it.done; it = await packetRx.next()) {\n        const body = it.value?.body\n        if (body?.case === 'data') {\n          yield body.value\n        } else if (body?.case === 'ack' && body.value.error) {\n          throw new Error(body.value.error)\n        }\n      }\n"))
R("rpc stream sink", (RS, "      try {\n        for await (const arr of source) {\n          this._packetTx.push({\n            body: { case: 'data', value: arr },\n          })\n        }\n        this._packetTx.end()\n      } catch (err) {\n        this._packetTx.end(err as Error)\n      }\n", "      let error: Error | undefined\n      try {\n        for await (const value of source) {\n          this._packetTx.push({ body: { case: 'data', value } })\n        }\n      } catch (err) {\n        error = err as Error\n      }\n      this._packetTx.end(error)\n"))
R("rpc stream handle", (RS, "  handler!(rpcStream)\n    .catch((err) => packetTx.end(err))\n    .then(() => packetTx.end())\n\n  // process packets\n  for await (const packet of packetTx) {\n    yield* [packet]\n  }\n", "  handler!(rpcStream).then(\n    () => packetTx.end(),\n    (err) => packetTx.end(err),\n  )\n\n  // process packets\n  yield* packetTx\n"), (RS, "  yield* [\n    {\n      body: {\n        case: 'ack' as const,\n        value: {\n          error: err?.message || '',\n        },\n      },\n    },\n  ]\n", "  yield { body: { case: 'ack' as const, value: { error: err ? err.message : '' } } }\n"))
R("rpc stream open", (RS, "    try {\n      await readAck(packetIt)\n    } catch (err) {\n      // end the call: nothing will be sent on the stream.\n      packetTx.end(err as Error)\n      throw err\n    }\n", "    await readAck(packetIt).catch((err) => {\n      packetTx.end(err)\n      throw err\n    })\n"), (RS, "  return async (): Promise<PacketStream> => {\n    return openRpcStream(componentId, caller)\n  }", "  return openRpcStream.bind(null, componentId, caller, false)"), (RS, "  const packetRx = caller(packetTx)\n\n  // write the component id\n  packetTx.push({\n    body: {\n      case: 'init',\n      value: { componentId },\n    },\n  })\n", "  // write the component id\n  packetTx.push({ body: { case: 'init', value: { componentId } } })\n  const packetRx = caller(packetTx)\n"))
R("rpc stream lookup", (RS, "  let handler: RpcStreamHandler | null = null\n  let err: Error | undefined\n  try {\n    handler = await getter(initRpcStreamPacket.body.value.componentId ?? '')\n  } catch (errAny) {\n    err = errAny as Error\n    if (!err) {\n      err = new Error(`rpc getter failed`)\n    } else if (!err.message) {\n      err = new Error(`rpc getter failed: ${err}`)\n    }\n  }\n\n  if (!handler && !err) {\n    err = new Error('not implemented')\n  }\n", "  const { componentId } = initRpcStreamPacket.body.value\n  const { handler, err } = await lookup(getter, componentId ?? '')\n"), (RS, "// handleRpcStream handles", "async function lookup(\n  getter: RpcStreamGetter,\n  id: string,\n): Promise<{ handler: RpcStreamHandler | null; err?: Error }> {\n  try {\n    const handler = await getter(id)\n    return handler ? { handler } : { handler: null, err: new Error('not implemented') }\n  } catch (err) {\n    return { handler: null, err: castToError(err, 'rpc getter failed') }\n  }\n}\n\n// handleRpcStream handles"), (RS, "import { MessageStream } from", "import { castToError } from '../srpc/errors.js'\nimport { MessageStream } from"))

# S47
VC, OC, HC, ER = "srpc/value-ctr.ts", "srpc/open-stream-ctr.ts", "srpc/handle-stream-ctr.ts", "srpc/errors.ts"
M("S47", "falsy initial", (VC, "this._value = initialValue\n", "this._value = initialValue || undefined\n"))
M("S47", "falsy set", (VC, "    if (val === undefined) {\n      return\n    }\n    const waiters", "    if (!val) {\n      return\n    }\n    const waiters"))
M("S47", "callback if set", (VC, "    if (this._value !== undefined) {\n      cb(this._value)\n      return\n    }\n", ""))
M("S47", "callback twice", (VC, "      cb(this._value)\n      return\n", "      cb(this._value)\n"))
M("S47", "waiters kept", (VC, "    this._waiters = []\n    for", "    for"))
M("S47", "waiters dropped late", (VC, "    this._waiters = []\n    for (const waiter of waiters) {\n      waiter(val)\n    }\n", "    for (const waiter of waiters) {\n      waiter(val)\n    }\n    this._waiters = []\n"))
M("S47", "first waiter only", (VC, "    for (const waiter of waiters) {\n      waiter(val)\n    }\n", "    waiters[0](val)\n"))
M("S47", "clear drops waiters", (VC, "    if (val === undefined) {\n      return\n    }\n    const waiters", "    if (val === undefined) {\n      this._waiters = []\n      return\n    }\n    const waiters"))
M("S47", "clear ignored", (VC, "    this._value = val\n    if (val === undefined) {\n      return\n    }\n", "    if (val === undefined) {\n      return\n    }\n    this._value = val\n"))
M("S47", "current value at once", (VC, "      this.waitWithCb((val: T) => {\n        resolve(val)\n      })\n", "      this.waitWithCb(() => {\n        Promise.resolve().then(() => resolve(this._value as T))\n      })\n"))
M("S47", "open caches", (OC, "    return async () => {\n      let openFn = this.value\n", "    let openFn = this.value\n    return async () => {\n"))
M("S47", "open not waiting", (OC, "        openFn = await this.wait()\n", "        throw new Error('not set')\n"))
M("S47", "handle without stream", (HC, "return handleFn(stream)", "return (handleFn as any)()"))
M("S47", "handle not returned", (HC, "      return handleFn(stream)\n", "      handleFn(stream).catch(() => {})\n"))
M("S47", "abort null", (ER, "  if (typeof err !== 'object' || err === null) {\n    return false\n  }\n  const message = (err as Error).message\n  return message === ERR_RPC_ABORT", "  if (typeof err !== 'object') {\n    return false\n  }\n  const message = (err as Error).message\n  return message === ERR_RPC_ABORT"))
M("S47", "idle is abort", (ER, "return message === ERR_STREAM_IDLE", "return message === ERR_RPC_ABORT"))
M("S47", "abort prefix", (ER, "return message === ERR_RPC_ABORT", "return message !== undefined && message.startsWith('ERR_')"))
M("S47", "abort of an error only", (ER, "  return message === ERR_RPC_ABORT", "  return err instanceof Error && message === ERR_RPC_ABORT"))
M("S47", "abort text", (ER, "export const ERR_RPC_ABORT = 'ERR_RPC_ABORT'", "export const ERR_RPC_ABORT = 'ERR_RPC_ABORTED'"))
M("S47", "cast no message", (ER, "  const asError = err as Error\n  if (asError.message) {\n    return asError\n  }\n", "  if (err instanceof Error) {\n    return err\n  }\n"))
M("S47", "cast undefined", (ER, "  if (!err) {\n    return new Error(defaultMsg)\n  }\n  if (typeof", "  if (typeof"))
M("S47", "cast no default", (ER, "  defaultMsg = defaultMsg || 'error'\n", "  defaultMsg = defaultMsg ?? ''\n"))
M("S47", "cast text lost", (ER, "    return new Error(err)\n", "    return new Error(defaultMsg)\n"))
M("S47", "cast wraps", (ER, "    return asError\n  }\n  if", "    return new Error(asError.message)\n  }\n  if"))
R("ctr set", (VC, "    return new Promise<T>((resolve) => {\n      this.waitWithCb((val: T) => {\n        resolve(val)\n      })\n    })\n", "    return new Promise<T>((resolve) => this._waiters.push(resolve))\n"), (VC, "    const waiters = this._waiters\n    if (waiters.length === 0) {\n      return\n    }\n    this._waiters = []\n    for (const waiter of waiters) {\n      waiter(val)\n    }\n", "    const waiters = this._waiters.splice(0)\n    waiters.forEach((waiter) => waiter(val))\n"))
R("ctr open", (OC, "      let openFn = this.value\n      if (!openFn) {\n        openFn = await this.wait()\n      }\n      return openFn()\n", "      const openFn = this.value ?? (await this.wait())\n      return await openFn()\n"), (HC, "    return async (stream) => {\n      let handleFn = this.value\n      if (!handleFn) {\n        handleFn = await this.wait()\n      }\n      return handleFn(stream)\n    }", "    return (stream) => this.wait().then((handle) => handle(stream))"))
R("errors shared", (ER, "  if (typeof err !== 'object' || err === null) {\n    return false\n  }\n  const message = (err as Error).message\n  return message === ERR_RPC_ABORT", "  return hasMessage(err, ERR_RPC_ABORT)"), (ER, "  if (typeof err !== 'object' || err === null) {\n    return false\n  }\n  const message = (err as Error).message\n  return message === ERR_STREAM_IDLE", "  return hasMessage(err, ERR_STREAM_IDLE)"), (ER, "// ERR_STREAM_IDLE", "function hasMessage(err: unknown, text: string): boolean {\n  return !!err && typeof err === 'object' && 'message' in err && err.message === text\n}\n\n// ERR_STREAM_IDLE"), (ER, "  if (err.toString) {\n    const errString = err.toString()\n    if (errString) {\n      return new Error(errString)\n    }\n  }\n  return new Error(defaultMsg)\n", "  return new Error(err.toString?.() || defaultMsg)\n"))

# S48
CH, WD = "srpc/channel.ts", "srpc/watchdog.ts"
M("S48", "falsy data", (CH, "if (data !== undefined && data !== null) {", "if (data) {"))
M("S48", "empty data", (CH, "if (data !== undefined && data !== null) {", "if ((data as any)?.length !== 0 && data !== undefined) {"))
M("S48", "own messages", (CH, "    if (!msg || msg.from === this.localId || !msg.from) {", "    if (!msg || !msg.from) {"))
M("S48", "anonymous", (CH, "    if (!msg || msg.from === this.localId || !msg.from) {", "    if (!msg || msg.from === this.localId) {"))
M("S48", "prefix is own", (CH, "msg.from === this.localId ||", "msg.from.startsWith(this.localId) ||"))
M("S48", "own feeds idle", (CH, "    const msg = ev.data\n", "    const msg = ev.data\n    this.idleWatchdog?.feed()\n"))
M("S48", "idle not fed", (CH, "    this.idleWatchdog?.feed()\n    if (msg.ack", "    if (msg.data) this.idleWatchdog?.feed()\n    if (msg.ack"))
M("S48", "idle without error", (CH, "this.close(new Error(ERR_STREAM_IDLE))", "this.close()"))
M("S48", "idle does not close", (CH, "      delete this.idleWatchdog\n      this.close(new Error(ERR_STREAM_IDLE))", "      this._source.end(new Error(ERR_STREAM_IDLE))"))
M("S48", "idle is keep alive", (CH, "new Watchdog(opts.idleTimeoutMs, () =>", "new Watchdog(opts.keepAliveMs ?? opts.idleTimeoutMs * 2, () =>"))
M("S48", "keep alive once", (CH, "    if (!msg.closed) {\n      this.keepAlive?.feed()\n    }", "    if (msg.data !== undefined || msg.ack) {\n      this.keepAlive?.feed()\n    }"))
M("S48", "keep alive off when sent", (CH, "    if (!msg.closed) {\n      this.keepAlive?.feed()\n    }", "    if (msg.closed) {\n      this.keepAlive?.clear()\n    } else {\n      this.keepAlive?.feed()\n    }"))
M("S48", "keep alive says opened", (CH, "      this.postMessage({})\n", "      this.postMessage({ opened: true })\n"))
M("S48", "keep alive after close", (CH, "    if (this.keepAlive) {\n      this.keepAlive.clear()\n      delete this.keepAlive\n    }", "    if (this.keepAlive) {\n      delete this.keepAlive\n    }"))
M("S48", "idle after close", (CH, "    if (this.idleWatchdog) {\n      this.idleWatchdog.clear()\n      delete this.idleWatchdog\n    }\n", "    delete this.idleWatchdog\n"))
M("S48", "zero options", (CH, "if (opts?.idleTimeoutMs != null) {", "if (opts?.idleTimeoutMs != null && opts.keepAliveMs == null) {"))
M("S48", "no hello if open", (CH, "    this.postMessage({ ack: true })\n  }\n", "    if (!this.remoteOpen) this.postMessage({ ack: true })\n  }\n"))
M("S48", "hello opened", (CH, "    this.postMessage({ ack: true })\n  }\n", "    this.postMessage({ ack: true, opened: true })\n  }\n"))
M("S48", "send before open", (CH, "      await this.waitRemoteOpen\n", ""))
M("S48", "opened before ack", (CH, "      await this.waitRemoteAck\n      this.onLocalOpened()", "      this.onLocalOpened()\n      await this.waitRemoteAck"))
M("S48", "ack opens", (CH, "    if (msg.opened) {\n      this.onRemoteOpened()", "    if (msg.ack || msg.opened) {\n      this.onRemoteOpened()"))
M("S48", "opened does not ack", (CH, "if (msg.ack || msg.opened) {\n      this.onRemoteAcked", "if (msg.ack) {\n      this.onRemoteAcked"))
M("S48", "answers each ack", (CH, "  private onRemoteAcked() {\n", "  private onRemoteAcked() {\n    if (this.localOpen) this.postMessage({ opened: true })\n"))
M("S48", "no from", (CH, "    msg.from = this.localId\n", "    if (msg.data === undefined) msg.from = this.localId\n"))
M("S48", "end is not sent", (CH, "        this.postMessage({ closed: true })\n      } catch", "      } catch"))
M("S48", "error is end", (CH, "this.postMessage({ closed: true, error: error as Error })", "this.postMessage({ closed: true })"))
M("S48", "end closes", (CH, "        this.postMessage({ closed: true })\n      } catch", "        this.close()\n      } catch"))
M("S48", "remote error is end", (CH, "      this._source.end(err)\n    } else if (closed)", "      this._source.end()\n    } else if (closed)"))
M("S48", "remote error without closed", (CH, "    if (err) {\n      this._source.end(err)", "    if (err && closed) {\n      this._source.end(err)"))
M("S48", "end before data", (CH, "    const { data, closed, error: err } = msg\n", "    const { data, closed, error: err } = msg\n    if (closed) this._source.end(err)\n"))
M("S48", "gone", (CH, "    if (err || closed) {\n      this.rejectWaiters(err)\n    }\n", ""))
M("S48", "gone only on error", (CH, "    if (err || closed) {\n      this.rejectWaiters", "    if (err) {\n      this.rejectWaiters"))
M("S48", "close twice", (CH, "    if (this.closed) {\n      return\n    }\n    // write a message", "    // write a message"), (CH, "    if (this.closed) {\n      return\n    }\n    msg.from", "    msg.from"))
M("S48", "close keeps rx", (CH, "      this.channel.tx.close()\n      this.channel.rx.close()\n    }", "      this.channel.tx.close()\n    }"))
M("S48", "close silent", (CH, "    // write a message to indicate the stream is now closed.\n    this.postMessage({ closed: true, error })\n", ""))
M("S48", "close after channel", (CH, "    this.postMessage({ closed: true, error })\n    this.closed = true\n", "    this.closed = true\n    this.postMessage({ closed: true, error })\n"))
M("S48", "close error lost", (CH, "    this._source.end(error)\n  }\n", "    this._source.end()\n  }\n"))
M("S48", "close keeps waiting", (CH, "    this.rejectWaiters(error)\n", ""))
M("S48", "swapped channels", (CH, "{ tx: new BroadcastChannel(writeName), rx: new BroadcastChannel(readName) }", "{ tx: new BroadcastChannel(readName), rx: new BroadcastChannel(writeName) }"))
M("S48", "options lost", (CH, "    { tx: new BroadcastChannel(writeName), rx: new BroadcastChannel(readName) },\n    opts,\n", "    { tx: new BroadcastChannel(writeName), rx: new BroadcastChannel(readName) },\n"))
M("S48", "port not started", (CH, "      channel.onmessage = onMessage\n      channel.start()\n", "      channel.addEventListener('message', onMessage)\n"))
M("S48", "listens to tx", (CH, "      channel.rx.onmessage = onMessage\n", "      channel.tx.onmessage = onMessage\n"))
R("channel listeners", (CH, "    const onMessage = this.onMessage.bind(this)\n    if (channel instanceof MessagePort) {\n      // MessagePort\n      channel.onmessage = onMessage\n      channel.start()\n    } else {\n      // BroadcastChannel\n      channel.rx.onmessage = onMessage\n    }\n", "    const rx = 'rx' in channel ? channel.rx : channel\n    rx.addEventListener('message', (ev) => this.onMessage(ev as MessageEvent))\n    if (channel instanceof MessagePort) {\n      channel.start()\n    }\n"))
R("channel deferred", (CH, "      this.waitRemoteOpen = new Promise<void>((resolve, reject) => {\n        this._remoteOpen = (err?: Error) => {\n          if (err) {\n            reject(err)\n          } else {\n            resolve()\n          }\n        }\n      })\n", "      this.waitRemoteOpen = new Promise<void>((resolve, reject) => {\n        this._remoteOpen = (err?: Error) => (err ? reject(err) : resolve())\n      })\n"), (CH, "    if (msg.ack || msg.opened) {\n      this.onRemoteAcked()\n    }\n    if (msg.opened) {\n      this.onRemoteOpened()\n    }\n", "    const { ack, opened } = msg\n    if (opened) {\n      this.onRemoteAcked()\n      this.onRemoteOpened()\n    } else if (ack) {\n      this.onRemoteAcked()\n    }\n"))
R("channel post", (CH, "    msg.from = this.localId\n    if (this.channel instanceof MessagePort) {\n      this.channel.postMessage(msg)\n    } else {\n      this.channel.tx.postMessage(msg)\n    }\n", "    const tx = this.channel instanceof MessagePort ? this.channel : this.channel.tx\n    tx.postMessage({ ...msg, from: this.localId })\n"), (CH, "    if (!msg.closed) {\n      this.keepAlive?.feed()\n    }\n", "    this.keepAlive?.feed()\n"))
R("channel sink", (CH, "      try {\n        for await (const msg of source) {\n          this.postMessage({ data: msg })\n        }\n        this.postMessage({ closed: true })\n      } catch (error) {\n        this.postMessage({ closed: true, error: error as Error })\n      }\n", "      let error: Error | undefined\n      try {\n        for await (const data of source) {\n          this.postMessage({ data })\n        }\n      } catch (err) {\n        error = err as Error\n      }\n      this.postMessage({ closed: true, error })\n"))
R("channel interval", (CH, "      this.keepAlive = new Watchdog(opts.keepAliveMs, () =>\n        this.keepAliveElapsed(),\n      )\n", "      this.keepAlive = new Watchdog(opts.keepAliveMs, this.keepAliveElapsed.bind(this))\n"), (CH, "      delete this.idleWatchdog\n      this.close(new Error(ERR_STREAM_IDLE))", "      this.close(new Error(ERR_STREAM_IDLE))"), (CH, "    if (this.keepAlive) {\n      // send a keep-alive message\n      this.postMessage({})\n    }\n", "    this.postMessage({})\n"))
# S49
M("S49", "early", (WD, "if (elapsedSinceLastFeed >= this.timeoutDuration) {", "if (elapsedSinceLastFeed >= this.timeoutDuration / 2) {"), (WD, "this.scheduleTickWatchdog(this.timeoutDuration)\n", "this.scheduleTickWatchdog(this.timeoutDuration / 2)\n"))
M("S49", "clear keeps timer", (WD, "      clearTimeout(this.timerId)\n      this.timerId = null\n    }\n    this.last", "      this.timerId = null\n    }\n    this.last"))
M("S49", "no clear on feed", (WD, "    if (this.timerId != null) {\n      clearTimeout(this.timerId)\n    }\n    this.timerId = setTimeout", "    this.timerId = setTimeout"))
M("S49", "late", (WD, "      this.scheduleTickWatchdog(this.timeoutDuration - elapsedSinceLastFeed)", "      this.scheduleTickWatchdog(this.timeoutDuration)"), (WD, "    this.scheduleTickWatchdog(this.timeoutDuration)\n  }", "    if (this.timerId == null) this.scheduleTickWatchdog(this.timeoutDuration)\n  }"))
M("S49", "twice", (WD, "    if (elapsedSinceLastFeed >= this.timeoutDuration) {\n      this.expiredCallback()\n", "    if (elapsedSinceLastFeed >= this.timeoutDuration) {\n      this.expiredCallback()\n      if (this.timerId == null) this.scheduleTickWatchdog(this.timeoutDuration)\n"))
M("S49", "starts ticking", (WD, "    this.expiredCallback = expiredCallback\n", "    this.expiredCallback = expiredCallback\n    this.feed()\n"))
M("S49", "feed while running ignored", (WD, "    this.lastFeedTimestamp = Date.now()\n    this.scheduleTickWatchdog(this.timeoutDuration)\n", "    if (this.timerId != null) return\n    this.lastFeedTimestamp = Date.now()\n    this.scheduleTickWatchdog(this.timeoutDuration)\n"))
M("S49", "clear stops for good", (WD, "    this.lastFeedTimestamp = null\n  }", "    this.lastFeedTimestamp = null\n    this.expiredCallback = () => {}\n  }"))
R("watchdog lazy", (WD, "    this.scheduleTickWatchdog(this.timeoutDuration)\n  }", "    if (this.timerId == null) {\n      this.scheduleTickWatchdog(this.timeoutDuration)\n    }\n  }"))
R("watchdog plain", (WD, "    this.lastFeedTimestamp = Date.now()\n    this.scheduleTickWatchdog(this.timeoutDuration)\n", "    this.clear()\n    this.timerId = setTimeout(() => {\n      this.timerId = null\n      this.expiredCallback()\n    }, this.timeoutDuration)\n"))
R("watchdog deadline", (WD, "    if (this.lastFeedTimestamp == null) {\n      this.expiredCallback()\n      return\n    }\n    const elapsedSinceLastFeed = Date.now() - this.lastFeedTimestamp\n    if (elapsedSinceLastFeed >= this.timeoutDuration) {\n      this.expiredCallback()\n    } else {\n      this.scheduleTickWatchdog(this.timeoutDuration - elapsedSinceLastFeed)\n    }\n", "    const left = (this.lastFeedTimestamp ?? 0) + this.timeoutDuration - Date.now()\n    if (left > 0) {\n      this.scheduleTickWatchdog(left)\n      return\n    }\n    this.expiredCallback()\n"))
# S50
BCH = "srpc/broadcast-channel.ts"
MPT = "srpc/message-port.ts"
CON = "srpc/conn.ts"
WSO = "srpc/websocket.ts"
SRV = "srpc/server.ts"
M("S50", "null twice", (MPT, "        this.close()\n        throw err\n      }\n\n      this.close()\n    }\n  }\n\n  // _createSource", "        this.close()\n        throw err\n      }\n\n      this.port.postMessage(null)\n      this.close()\n    }\n  }\n\n  // _createSource"))
M("S50", "mp close order", (MPT, "    this.port.postMessage(null)\n    this.port.close()\n", "    this.port.close()\n    this.port.postMessage(null)\n"))
M("S50", "mp falsy", (MPT, "        if (data !== null) {", "        if (data) {"))
M("S50", "mp undefined ends", (MPT, "        if (data !== null) {", "        if (data != null) {"))
M("S50", "mp error swallowed", (MPT, "        this.close()\n        throw err\n      }\n\n      this.close()\n    }\n  }\n\n  // _createSource", "        this.close()\n      }\n\n      this.close()\n    }\n  }\n\n  // _createSource"))
M("S50", "mp error does not close", (MPT, "      } catch (err: unknown) {\n        this.close()\n        throw err", "      } catch (err: unknown) {\n        throw err"))
M("S50", "mp no start", (MPT, "      this.port.start()\n", ""))
M("S50", "mp keeps listener", (MPT, "        this.port.removeEventListener('message', messageListener)\n", ""))
M("S50", "mp end keeps port", (MPT, "      throw err\n    }\n\n    this.close()\n  }\n}", "      throw err\n    }\n  }\n}"))
M("S50", "mp starts early", (MPT, "    this.source = this._createSource()\n", "    this.source = this._createSource()\n    this.port.start()\n"))
M("S50", "bc swapped", (BCH, "    this.read = read\n    this.write = write\n", "    this.read = write\n    this.write = read\n"))
M("S50", "bc same name", (BCH, "new BroadcastChannel(writeName)", "new BroadcastChannel(readName)"))
M("S50", "bc read stays open", (BCH, "    this.write.close()\n    this.read.close()\n", "    this.write.close()\n"))
M("S50", "bc close flag late", (BCH, "    this.closed = true\n    this.write.postMessage(null)\n    this.write.close()\n    this.read.close()\n", "    this.write.postMessage(null)\n    this.write.close()\n    this.read.close()\n"))
M("S50", "bc null on read", (BCH, "    this.write.postMessage(null)\n", "    this.read.postMessage(null)\n"))
M("S50", "bc listens on write", (BCH, "      this.read.addEventListener(", "      this.write.addEventListener("))
M("S50", "bc sink stops at falsy", (BCH, "          this.write.postMessage(msg)\n", "          if (msg === undefined) break\n          this.write.postMessage(msg)\n"))
M("S50", "bc end silent", (BCH, "    this.closed = true\n    this.write.postMessage(null)\n", "    this.closed = true\n"))
R("duplex finally", (MPT, "      } catch (err: unknown) {\n        this.close()\n        throw err\n      }\n\n      this.close()\n    }\n  }\n\n  // _createSource", "      } finally {\n        this.close()\n      }\n    }\n  }\n\n  // _createSource"), (BCH, "      } catch (err: unknown) {\n        this.close()\n        throw err\n      }\n\n      this.close()\n    }\n  }\n\n  // _createSource", "      } finally {\n        this.close()\n      }\n    }\n  }\n\n  // _createSource"))
R("duplex source delegate", (MPT, "      for await (const value of iterator) {\n        yield value\n      }\n", "      yield* iterator\n"), (BCH, "        if (data !== null) {\n          queue.push(data)\n        } else {\n          queue.stop()\n        }\n", "        if (data === null) {\n          queue.stop()\n          return\n        }\n        queue.push(data)\n"))
R("duplex names", (BCH, "  return new BroadcastChannelDuplex<T>(\n    new BroadcastChannel(readName),\n    new BroadcastChannel(writeName),\n  )", "  const write = new BroadcastChannel(writeName)\n  const read = new BroadcastChannel(readName)\n  return new BroadcastChannelDuplex<T>(read, write)"), (BCH, "    this.write.close()\n    this.read.close()\n", "    for (const ch of [this.read, this.write]) {\n      ch.close()\n    }\n"))
# S51
M("S51", "direction inbound", (CON, "connParams?.direction || 'outbound'", "connParams?.direction || 'inbound'"))
M("S51", "direction ignored", (CON, "connParams?.direction || 'outbound'", "connParams?.muxerFactory ? connParams.direction || 'outbound' : 'outbound'"))
M("S51", "keep-alive fixed", (CON, "yamux({ enableKeepAlive: false, ...connParams?.yamuxParams })", "yamux({ ...connParams?.yamuxParams, enableKeepAlive: false })"))
M("S51", "keep-alive default", (CON, "yamux({ enableKeepAlive: false, ...connParams?.yamuxParams })", "yamux({ ...connParams?.yamuxParams })"))
M("S51", "factory ignored", (CON, "      connParams?.muxerFactory ??\n", ""))
M("S51", "mp keep-alive off", (MPT, "        enableKeepAlive: true,\n", ""))
M("S51", "mp params lost", (MPT, "        ...connParams?.yamuxParams,\n", ""))
M("S51", "mp conn params lost", (MPT, "      ...connParams,\n      yamux", "      yamux"))
M("S51", "bc overrides params", (BCH, "        enableKeepAlive: true,\n        keepAliveInterval: 1500,\n        ...connParams?.yamuxParams,\n", "        ...connParams?.yamuxParams,\n        enableKeepAlive: true,\n        keepAliveInterval: 1500,\n"))
M("S51", "handler not bound", (CON, "this.handleIncomingStream.bind(this)", "this.handleIncomingStream"))
M("S51", "client not bound", (CON, "new Client(this.openStream.bind(this))", "new Client(this.openStream)"))
M("S51", "open not bound", (CON, "    return this.openStream.bind(this)\n", "    return this.openStream\n"))
M("S51", "one stream shared", (CON, "    const strm = await this.muxer.newStream()\n    return streamToPacketStream(strm)", "    const self = this as any\n    self.strm ??= this.muxer.newStream()\n    return streamToPacketStream(await self.strm)"))
M("S51", "no server closes", (CON, "return strm.abort(new Error('server not implemented'))", "return strm.close()"))
M("S51", "raw stream to server", (CON, "server.handlePacketStream(streamToPacketStream(strm))", "server.handlePacketStream(strm as any)"))
M("S51", "server method unbound", (CON, "    server.handlePacketStream(streamToPacketStream(strm))", "    const { handlePacketStream } = server\n    handlePacketStream(streamToPacketStream(strm))"))
M("S51", "close swaps", (CON, "    if (err) {\n      this.muxer.abort(err)\n    } else {\n      this.muxer.close()\n    }\n", "    this.muxer.close()\n    if (err) this.muxer.abort(err)\n"))
M("S51", "error forgotten", (CON, "      this.muxer.abort(err)\n", "      this.muxer.abort(new Error('closed'))\n"))
M("S51", "mp close keeps port", (MPT, "    this._messagePort.close()\n", ""))
M("S51", "mp close silent", (MPT, "    this._messagePort.close()\n", "    this.messagePort.close()\n"))
M("S51", "bc close keeps duplex", (BCH, "    super.close(err)\n    this.duplex.close()\n", "    super.close(err)\n"))
M("S51", "mp error lost", (MPT, "      .catch((err) => this.close(err))", "      .catch(() => this.close())"))
M("S51", "ws error unhandled", (WSO, "      .catch((err) => this.close(err))\n      .then(() => this.close())", "      .then(() => this.close())"))
M("S51", "ws end ignored", (WSO, "      .catch((err) => this.close(err))\n      .then(() => this.close())", "      .catch((err) => this.close(err))"))
M("S51", "ws not combined", (WSO, "      combineUint8ArrayListTransform(),\n", ""))
M("S51", "ws direction", (WSO, "super(server, { direction })", "super(server, {})"))
M("S51", "ws server lost", (WSO, "super(server, { direction })", "super(undefined, { direction })"))
M("S51", "ws out to self", (WSO, "      socketDuplex,\n    )", "      duplex(socket),\n    )"))
M("S51", "bc combine drops rest", ("srpc/array-list.ts", "yield obj.subarray()", "yield obj.subarray(0, 1024)"))
R("conn spread", (CON, "    const muxerFactory =\n      connParams?.muxerFactory ??\n      yamux({ enableKeepAlive: false, ...connParams?.yamuxParams })({\n        logger: defaultLogger(),\n      })\n", "    let muxerFactory = connParams?.muxerFactory\n    if (!muxerFactory) {\n      const init = { enableKeepAlive: false, ...(connParams?.yamuxParams ?? {}) }\n      muxerFactory = yamux(init)({ logger: defaultLogger() })\n    }\n"), (CON, "      onIncomingStream: this.handleIncomingStream.bind(this),\n", "      onIncomingStream: (strm: Stream) => this.handleIncomingStream(strm),\n"))
R("conn open", (CON, "    const strm = await this.muxer.newStream()\n    return streamToPacketStream(strm)", "    return streamToPacketStream(await this._muxer.newStream())"), (CON, "    return new Client(this.openStream.bind(this))", "    return new Client(this.buildOpenStreamFunc())"), (CON, "    return this.openStream.bind(this)\n  }\n\n  // handle", "    return async () => this.openStream()\n  }\n\n  // handle"))
R("conn incoming", (CON, "    if (!server) {\n      return strm.abort(new Error('server not implemented'))\n    }\n    server.handlePacketStream(streamToPacketStream(strm))\n", "    if (server) {\n      server.handlePacketStream(streamToPacketStream(strm))\n    } else {\n      strm.abort(new Error('server not implemented'))\n    }\n"))
R("conn run", (WSO, "    pipe(\n      socketDuplex,\n      this,\n      // it-ws only supports sending Uint8Array.\n      combineUint8ArrayListTransform(),\n      socketDuplex,\n    )\n      .catch((err) => this.close(err))\n      .then(() => this.close())\n", "    void this.run(socketDuplex)\n"), (WSO, "  // getSocket returns", "  private async run(socketDuplex: any) {\n    try {\n      await pipe(socketDuplex, this, combineUint8ArrayListTransform(), socketDuplex)\n    } catch (err) {\n      this.close(err as Error)\n      return\n    }\n    this.close()\n  }\n\n  // getSocket returns"))
R("conn then both", (BCH, "      .catch((err) => this.close(err))\n      .then(() => this.close())", "      .then(\n        () => this.close(),\n        (err) => this.close(err),\n      )"), (MPT, "        enableKeepAlive: true,\n        keepAliveInterval: 1500,\n", "        enableKeepAlive: true,\n        keepAliveInterval: 2000,\n"))
# S52
M("S52", "shared call", (SRV, "    return new ServerRPC(this.lookupMethod)", "    const self = this as any\n    self.rpc ??= new ServerRPC(this.lookupMethod)\n    return self.rpc"))
M("S52", "not encoded", (SRV, "    pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)\n      .catch((err: Error) => rpc.close(err))\n      .then(() => rpc.close())\n    return rpc", "    pipe(stream, decodePacketSource, rpc, stream as any)\n      .catch((err: Error) => rpc.close(err))\n      .then(() => rpc.close())\n    return rpc"))
M("S52", "write failure unhandled", (SRV, "      .catch((err: Error) => rpc.close(err))\n      .then(() => rpc.close())\n    return rpc", "      .then(() => rpc.close())\n    return rpc"))
M("S52", "write failure is end", (SRV, "      .catch((err: Error) => rpc.close(err))\n      .then(() => rpc.close())\n    return rpc", "      .catch(() => rpc.close())\n    return rpc"))
M("S52", "handler write failure", (SRV, "        .catch((err: Error) => rpc.close(err))\n        .then(() => rpc.close())\n    }", "        .catch(() => rpc.close())\n    }"))
M("S52", "handler returns early", (SRV, "      return pipe(stream", "      pipe(stream"))
M("S52", "no call returned", (SRV, "    return rpc\n  }\n}", "    return this.startRpc()\n  }\n}"))
M("S52", "one way", (SRV, "    pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)\n      .catch((err: Error) => rpc.close(err))\n      .then(() => rpc.close())\n    return rpc", "    pipe(stream, decodePacketSource, rpc)\n    return rpc"))
M("S52", "requests end with close", (SRV, "    const rpc = this.startRpc()\n    pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)\n", "    const rpc = this.startRpc()\n    pipe(stream, decodePacketSource, async (source: any) => rpc.sink(source)).then(() => rpc.close())\n    pipe(rpc, encodePacketSource, stream)\n"))
M("S52", "handler reads only", (SRV, "      const rpc = this.startRpc()\n      return pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)\n", "      const rpc = this.startRpc()\n      return pipe(stream, decodePacketSource, rpc.sink)\n"))
R("server shared", (SRV, "    return async (stream: PacketStream) => {\n      const rpc = this.startRpc()\n      return pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)\n        .catch((err: Error) => rpc.close(err))\n        .then(() => rpc.close())\n    }", "    return (stream: PacketStream) => this.run(this.startRpc(), stream)"), (SRV, "    pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)\n      .catch((err: Error) => rpc.close(err))\n      .then(() => rpc.close())\n    return rpc\n  }\n", "    void this.run(rpc, stream)\n    return rpc\n  }\n\n  private async run(rpc: ServerRPC, stream: PacketStream): Promise<void> {\n    try {\n      await pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)\n    } catch (err) {\n      await rpc.close(err as Error)\n      return\n    }\n    await rpc.close()\n  }\n"))
R("server two pipes", (SRV, "    pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)\n      .catch((err: Error) => rpc.close(err))\n      .then(() => rpc.close())\n    return rpc", "    Promise.all([\n      pipe(stream, decodePacketSource, rpc.sink),\n      pipe(rpc.source, encodePacketSource, stream),\n    ])\n      .catch((err: Error) => rpc.close(err))\n      .then(() => rpc.close())\n    return rpc"))
# S53
M("S53", "number", ("srpc/rpcproto.pb.ts", "no: 2,", "no: 5,"))
M("S53", "swapped numbers", ("rpcstream/rpcstream.pb.ts", "{ no: 2, name: 'ack'", "{ no: 3, name: 'ack'"), ("rpcstream/rpcstream.pb.ts", "{ no: 3, name: 'data'", "{ no: 2, name: 'data'"))
M("S53", "string for bytes", ("rpcstream/rpcstream.pb.ts", "T: ScalarType.BYTES", "T: ScalarType.STRING"))
M("S53", "no oneof", ("rpcstream/rpcstream.pb.ts", "T: () => RpcAck, oneof: 'body' }", "T: () => RpcAck }"))
M("S53", "wrong message", ("rpcstream/rpcstream.pb.ts", "T: () => RpcAck, oneof", "T: () => RpcStreamInit, oneof"))
M("S53", "schema only", ("echo/echo.proto", "string body = 1;", "string body = 2;"))
M("S53", "type name", ("mock/mock.pb.ts", "typeName: \"e2e.mock.MockMsg\"", "typeName: \"mock.MockMsg\""))
R("pb helper", ("rpcstream/rpcstream.pb.ts", "export const RpcAck: MessageType<RpcAck> = createMessageType({\n  typeName: 'rpcstream.RpcAck',\n  fields: [\n    { no: 1, name: 'error', kind: 'scalar', T: ScalarType.STRING },\n  ] as readonly PartialFieldInfo[],\n", "const ackFields: PartialFieldInfo[] = [\n  { no: 1, name: 'error', kind: 'scalar', T: ScalarType.STRING },\n]\nexport const RpcAck: MessageType<RpcAck> = createMessageType({\n  typeName: `${protobufPackage}.RpcAck`,\n  fields: ackFields,\n"))
# S54
ES = "echo/echo_srpc.pb.ts"
M("S54", "kind", (ES, "kind: MethodKind.ClientStreaming", "kind: MethodKind.BiDiStreaming"))
M("S54", "types", (ES, "      I: RpcStreamPacket,", "      I: EchoMsg,"))
M("S54", "service id ignored", (ES, "this.service = opts?.service || EchoerServiceName", "this.service = EchoerServiceName"))
M("S54", "not bound", (ES, "    this.RpcStream = this.RpcStream.bind(this)\n", ""))
M("S54", "wrong method", (ES, "      EchoerDefinition.methods.EchoClientStream.name,", "      EchoerDefinition.methods.EchoBidiStream.name,"))
M("S54", "signal lost", (ES, "      EchoMsg.toBinary(requestMsg),\n      abortSignal || undefined,\n    )\n    return buildDecode", "      EchoMsg.toBinary(requestMsg),\n    )\n    return buildDecode"))
M("S54", "wrong call", (ES, "this.rpc.serverStreamingRequest(\n      this.service,\n      EchoerDefinition.methods.EchoServerStream.name,\n      EchoMsg.toBinary(requestMsg)", "this.rpc.bidirectionalStreamingRequest(\n      this.service,\n      EchoerDefinition.methods.EchoServerStream.name,\n      buildEncodeMessageTransform(EchoMsg)([requestMsg] as any)"))
M("S54", "wrong type decoded", (ES, "    return buildDecodeMessageTransform(RpcStreamPacket)(result)", "    return buildDecodeMessageTransform(EchoMsg)(result) as any"))
M("S54", "mock service", ("mock/mock_srpc.pb.ts", "typeName: \"e2e.mock.Mock\"", "typeName: \"mock.Mock\""))
R("client helper", (ES, "    const requestMsg = EchoMsg.create(request)\n    const result = await this.rpc.request(\n      this.service,\n      EchoerDefinition.methods.Echo.name,\n      EchoMsg.toBinary(requestMsg),\n      abortSignal || undefined,\n    )\n    return EchoMsg.fromBinary(result)", "    const { name, I, O } = EchoerDefinition.methods.Echo\n    const data = I.toBinary(I.create(request))\n    return O.fromBinary(\n      await this.rpc.request(this.service, name, data, abortSignal),\n    )"))
# S55
GT = "cmd/protoc-gen-es-starpc/typescript.ts"
M("S55", "kind number", (GT, "      MethodKind[method.methodKind],", "      MethodKind[MethodKind.Unary],"))
M("S55", "swapped types", (GT, 'f.print("      I: ", method.input, ",");', 'f.print("      I: ", method.output, ",");'))
M("S55", "no idempotency", (GT, "if (method.idempotency !== undefined) {", "if (method.idempotency === undefined) {} else if (method.idempotency > 1) {"))
M("S55", "client streaming without await", (GT, 'f.print("    const result = await this.rpc.clientStreamingRequest(");', 'f.print("    const result = this.rpc.clientStreamingRequest(");'))
M("S55", "unbound", (GT, '    f.print("    this.", method.name, " = this.", method.name, ".bind(this)");\n', '    if (method.methodKind !== MethodKind.ServerStreaming) f.print("    this.", method.name, " = this.", method.name, ".bind(this)");\n'))
M("S55", "service name", (GT, 'f.print(`  typeName: `, f.string(service.typeName), `,`);', 'f.print(`  typeName: `, f.string(localName(service)), `,`);'))
M("S55", "only first service", (GT, "    for (const service of protoFile.services) {\n      generateService(schema, file, service)\n    }", "    const service = protoFile.services[0]\n    if (service) generateService(schema, file, service)"))
M("S55", "return instead of skip", (GT, "    for (const service of protoFile.services) {\n", "    for (const service of protoFile.services) {\n      if (!service.methods.length) return\n"))
M("S55", "file name", (GT, "protoFile.name + '_srpc.pb.ts'", "protoFile.name + '.srpc.pb.ts'"))
M("S55", "interface returns promise", (GT, '''      f.print(MessageStream, "<", method.output, ">");
    } else if (method.methodKind === MethodKind.ClientStreaming) {''', '''      f.print("Promise<", method.output, ">");
    } else if (method.methodKind === MethodKind.ClientStreaming) {'''))
M("S55", "not async", (GT, "method.methodKind === MethodKind.Unary || method.methodKind === MethodKind.ClientStreaming ? \"async \" : \"\"", "method.methodKind === MethodKind.Unary ? \"async \" : \"\""))
M("S55", "starpc symbol", (GT, 'createImportSymbol("buildDecodeMessageTransform", "starpc")', 'createImportSymbol("decodeMessageTransform", "starpc")'))
M("S55", "encode output", (GT, '''      f.print("      ", buildEncodeMessageTransformSymbol, "(", method.input, ")(request),");
      f.print("      abortSignal || undefined,");
      f.print("    )");
      f.print("    return ", buildDecode''', '''      f.print("      ", buildEncodeMessageTransformSymbol, "(", method.output, ")(request),");
      f.print("      abortSignal || undefined,");
      f.print("    )");
      f.print("    return ", buildDecode'''))
M("S55", "index export", ("srpc/index.ts", "buildDecodeMessageTransform,", ""))
M("S55", "command", ("cmd/protoc-gen-es-starpc/protoc-gen-es-starpc.ts", "runNodeJs(protocGenEsStarpc)", "void runNodeJs\nvoid protocGenEsStarpc"))
R("generator signature", (GT, '''    if (method.methodKind === MethodKind.Unary) {
      f.print("request: ", method.input, ", abortSignal?: AbortSignal");
    } else if (method.methodKind === MethodKind.ServerStreaming) {
      f.print("request: ", method.input, ", abortSignal?: AbortSignal");
    } else if (method.methodKind === MethodKind.ClientStreaming) {
      f.print("request: ", MessageStream, "<", method.input, ">, abortSignal?: AbortSignal");
    } else if (method.methodKind === MethodKind.BiDiStreaming) {
      f.print("request: ", MessageStream, "<", method.input, ">, abortSignal?: AbortSignal");
    }
    f.print("): ");
    if (method.methodKind === MethodKind.Unary) {
      f.print("Promise<", method.output, ">");''', '''    switch (method.methodKind) {
      case MethodKind.Unary:
      case MethodKind.ServerStreaming:
        f.print("request: ", method.input, ", abortSignal?: AbortSignal");
        break;
      default:
        f.print("request: ", MessageStream, "<", method.input, ">, abortSignal?: AbortSignal");
    }
    f.print("): ");
    if (method.methodKind === MethodKind.Unary) {
      f.print("Promise<", method.output, ">");'''))
R("generator helper", (GT, '''  for (const method of service.methods) {
    f.print("    this.", method.name, " = this.", method.name, ".bind(this)");
  }''', '''  service.methods.forEach(({ name }) => {
    f.print(`    this.${name} = this.${name}.bind(this)`);
  });'''), (GT, '''export function generateTs(schema: Schema) {
  for (const protoFile of schema.files) {
    const file''', '''export function generateTs(schema: Schema): void {
  for (const protoFile of schema.files) {
    const file'''))

# S56
EC = "echo/server.ts"
M("S56", "echo copies nothing", (EC, "    return request\n  }\n\n  public async *Echo", "    return { body: request.body ?? 'empty' }\n  }\n\n  public async *Echo"))
M("S56", "one message too many", (EC, "i < 5; i++", "i <= 5; i++"))
M("S56", "burst", (EC, "      await new Promise((resolve) => setTimeout(resolve, 200))\n", "      if (i % 2) await new Promise((resolve) => setTimeout(resolve, 200))\n"))
M("S56", "empty first message", (EC, "    if (!message) {", "    if (!message?.body) {"))
M("S56", "no first message", (EC, "    if (!message) {\n      throw new Error('received no messages')\n    }\n    return message", "    return message ?? {}"))
M("S56", "waits for the end", (EC, "    const message = await first(request)\n", "    let message: EchoMsg | undefined\n    for await (const m of request) message ??= m\n"))
M("S56", "greeting after the first", (EC, "    result.push({ body: 'hello from server' })\n    writeToPushable(request, result)\n", "    const greet = async function* () {\n      let n = 0\n      for await (const m of request) {\n        if (n++ === 0) yield { body: 'hello from server' }\n        yield m\n      }\n    }\n    writeToPushable(greet(), result)\n"))
M("S56", "failure is an end", (EC, "    writeToPushable(request, result)\n", "    ;(async () => {\n      try {\n        for await (const m of request) result.push(m)\n      } catch {\n      } finally {\n        result.end()\n      }\n    })()\n"))
M("S56", "no server passes", (EC, "          throw new Error('rpc stream proxy server not set')\n", "          return async () => {}\n"))
M("S56", "do nothing echoes", (EC, "  public async DoNothing(): Promise<Empty> {\n    return {}", "  public async DoNothing(request?: Empty): Promise<Empty> {\n    return request ?? {}"))
M("S56", "mutates the request", (EC, "      yield request\n", "      yield i ? request : Object.assign(request, { body: request.body + '' })\n"))
R("echo copies", (EC, "    return request\n  }\n\n  public async *Echo", "    const { body } = request\n    return { body }\n  }\n\n  public async *Echo"), (EC, "    for (let i = 0; i < 5; i++) {\n      yield request\n      await new Promise((resolve) => setTimeout(resolve, 200))\n    }", "    let left = 5\n    const sleep = (ms: number) =>\n      new Promise<void>((resolve) => {\n        setTimeout(resolve, ms)\n      })\n    do {\n      yield { ...request }\n      await sleep(200)\n    } while (--left > 0)"))
R("echo generator", (EC, "  public EchoBidiStream(", "  public async *EchoBidiStream("), (EC, "    const result = messagePushable<EchoMsg>()\n    result.push({ body: 'hello from server' })\n    writeToPushable(request, result)\n    return result\n", "    yield { body: 'hello from server' }\n    yield* request\n"), (EC, "    const message = await first(request)\n    if (!message) {\n      throw new Error('received no messages')\n    }\n    return message", "    for await (const message of request) {\n      return message\n    }\n    throw new Error('received no messages')"))
R("echo handler", (EC, "      async (): Promise<RpcStreamHandler> => {\n        if (!this.proxyServer) {\n          throw new Error('rpc stream proxy server not set')\n        }\n        return this.proxyServer.rpcStreamHandler\n      },", "      () => this.streamHandler(),"), (EC, "  public async DoNothing(", "  private async streamHandler(): Promise<RpcStreamHandler> {\n    const server = this.proxyServer\n    if (server) return server.rpcStreamHandler\n    throw new Error('rpc stream proxy server not set')\n  }\n\n  public async DoNothing("))
WDT = "srpc/watchdog.ts"
M("S49", "early is over", (WDT, "    } else {\n      this.scheduleTickWatchdog(this.timeoutDuration - elapsedSinceLastFeed)\n    }\n", "    }\n"))
M("S49", "early timer expires", (WDT, "    if (elapsedSinceLastFeed >= this.timeoutDuration) {", "    if (elapsedSinceLastFeed >= this.timeoutDuration - 10) {"))
M("S50", "port listens on", ("srpc/message-port.ts", "        this.port.removeEventListener('message', messageListener)", "        this.port.removeEventListener('messageerror', messageListener)"))
M("S45", "sink early", ("srpc/stream.ts", "      await pipe(source, prependLengthPrefixTransform(), stream)\n", "      pipe(source, prependLengthPrefixTransform(), stream)\n"))
M("S45", "short prefix", ("srpc/packet.ts", "  const data = new Uint8ArrayList(new Uint8Array(4))\n", "  const data = new Uint8ArrayList(new Uint8Array(value < 65536 ? 2 : 4))\n"))
R("watchdog lazy", (WDT, "    this.lastFeedTimestamp = Date.now()\n    this.scheduleTickWatchdog(this.timeoutDuration)\n", "    this.lastFeedTimestamp = Date.now()\n    if (this.timerId == null) {\n      this.scheduleTickWatchdog(this.timeoutDuration)\n    }\n"))
R("sink try", ("srpc/stream.ts", "      await pipe(source, prependLengthPrefixTransform(), stream)\n        .catch((err) => stream.close(err))\n        .then(() => stream.close())\n", "      try {\n        await pipe(source, prependLengthPrefixTransform(), stream)\n      } catch (err) {\n        await stream.close(err as Error)\n      }\n      await stream.close()\n"))
