// Packages whose behaviour is not modelled: what is imported is a part of
// the environment of the analysed code.
export const yamux = __env('yamux')
export const defaultLogger = __env('defaultLogger')
export const createImportSymbol = __env('createImportSymbol')
export const createEcmaScriptPlugin = __env('createEcmaScriptPlugin')
export const runNodeJs = __env('runNodeJs')
export default __env('default')
