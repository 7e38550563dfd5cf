// Prints small edits of TypeScript files, one JSON object per line (as mutate.go does for Go).
// usage: node mutate.mjs ROOT FILE...
import { createRequire } from 'module'
import fs from 'fs'
import path from 'path'
const require = createRequire('/opt/veriftools/node/node_modules/x.js')
const ts = require('typescript')
const [root, ...files] = process.argv.slice(2)
for (const file of files) {
  const text = fs.readFileSync(path.join(root, file), 'utf8')
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true)
  const seen = new Set()
  const cut = (s) => (s.length > 60 ? s.slice(0, 60) + '...' : s)
  const emit = (n, fn, neu, what, lo = n.getStart(sf), hi = n.end) => {
    if (seen.has(lo + ' ' + hi + ' ' + neu)) return
    seen.add(lo + ' ' + hi + ' ' + neu)
    const pre = Buffer.byteLength(text.slice(0, lo))
    const line = sf.getLineAndCharacterOfPosition(lo).line + 1
    console.log(JSON.stringify({ file, line, fn, lo: pre, hi: pre + Buffer.byteLength(text.slice(lo, hi)), new: neu, what }))
  }
  const src = (n) => n.getText(sf)
  const K = ts.SyntaxKind
  const visit = (n, fn) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n)) return
    if (n.name && (ts.isMethodDeclaration(n) || ts.isFunctionDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isAccessor(n))) fn = src(n.name)
    if (ts.isConstructorDeclaration(n)) fn = 'constructor'
    if (ts.isExpressionStatement(n) && n.expression.kind !== K.SuperKeyword && !(ts.isCallExpression(n.expression) && n.expression.expression.kind === K.SuperKeyword)) {
      emit(n, fn, '', 'delete ' + JSON.stringify(cut(src(n))))
      if (ts.isCallExpression(n.expression)) emit(n, fn, src(n) + ';' + src(n), 'twice ' + JSON.stringify(cut(src(n))))
    }
    if (ts.isIfStatement(n) || ts.isThrowStatement(n)) emit(n, fn, '{}', 'delete ' + JSON.stringify(cut(src(n))))
    if (ts.isIfStatement(n) && n.elseStatement) emit(n, fn, '{}', 'drop else', n.elseStatement.getStart(sf), n.elseStatement.end)
    if (ts.isReturnStatement(n)) {
      if (!n.expression) emit(n, fn, '', 'delete return')
      else {
        emit(n, fn, 'return undefined!', 'return undefined for ' + JSON.stringify(cut(src(n.expression))))
        if (n.expression.kind === K.TrueKeyword) emit(n, fn, 'return false', 'return false')
        if (n.expression.kind === K.FalseKeyword) emit(n, fn, 'return true', 'return true')
      }
    }
    if (ts.isBreakStatement(n) || ts.isContinueStatement(n)) {
      emit(n, fn, '', 'delete ' + src(n))
      emit(n, fn, ts.isBreakStatement(n) ? 'continue' : 'break', 'swap ' + src(n))
    }
    if (ts.isIfStatement(n) || ts.isWhileStatement(n) || ts.isConditionalExpression(n)) {
      const c = ts.isConditionalExpression(n) ? n.condition : n.expression
      emit(c, fn, `!(${src(c)})`, 'negate ' + cut(src(c)))
      if (!ts.isWhileStatement(n)) { emit(c, fn, `(${src(c)}) || true`, 'always ' + cut(src(c))); emit(c, fn, `(${src(c)}) && false`, 'never ' + cut(src(c))) }
    }
    if (ts.isBinaryExpression(n)) {
      const o = n.operatorToken
      const sw = { [K.LessThanToken]: ['<='], [K.LessThanEqualsToken]: ['<'], [K.GreaterThanToken]: ['>='], [K.GreaterThanEqualsToken]: ['>'], [K.EqualsEqualsEqualsToken]: ['!=='], [K.ExclamationEqualsEqualsToken]: ['==='], [K.PlusToken]: ['-'], [K.MinusToken]: ['+'] }[o.kind]
      for (const s of sw || []) emit(o, fn, s, `${s} for ${src(o)} in ${cut(src(n))}`)
      if ([K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken].includes(o.kind)) {
        emit(n, fn, src(n.left), 'left only of ' + cut(src(n)))
        emit(n, fn, src(n.right), 'right only of ' + cut(src(n)))
      }
    }
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) emit(n, fn, src(n.operand), 'drop not of ' + cut(src(n)))
    if (ts.isAwaitExpression(n)) emit(n, fn, src(n.expression), 'drop await of ' + cut(src(n)))
    if (ts.isNumericLiteral(n)) for (const v of ['0', '1', '2']) if (v !== src(n)) emit(n, fn, v, v + ' for ' + src(n))
    if (n.kind === K.TrueKeyword) emit(n, fn, 'false', 'false for true')
    if (n.kind === K.FalseKeyword) emit(n, fn, 'true', 'true for false')
    if (ts.isStringLiteral(n) && n.text) emit(n, fn, "''", 'empty for ' + src(n))
    if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
      for (const a of n.arguments || []) if (src(a) !== 'undefined' && !ts.isArrowFunction(a) && !ts.isFunctionExpression(a) && !ts.isSpreadElement(a)) emit(a, fn, 'undefined as any', `undefined for ${cut(src(a))} of ${cut(src(n))}`)
      const as = n.arguments || []
      if (as.length === 2 && !ts.isSpreadElement(as[0]) && !ts.isSpreadElement(as[1])) emit(n, fn, `${src(as[1])} as any, ${src(as[0])} as any`, 'exchange ' + cut(src(n)), as[0].getStart(sf), as[1].end)
    }
    if (ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n)) emit(n, fn, '', 'delete field ' + cut(src(n)), n.getStart(sf), text[n.end] === ',' ? n.end + 1 : n.end)
    if (ts.isTryStatement(n) && n.finallyBlock) emit(n.finallyBlock, fn, '{}', 'drop finally')
    if (ts.isCatchClause(n)) emit(n.block, fn, '{}', 'empty catch')
    if (ts.isPropertyDeclaration(n) && n.initializer) emit(n.initializer, fn, 'undefined as any', 'undefined for field ' + cut(src(n)))
    ts.forEachChild(n, (m) => visit(m, fn))
  }
  visit(sf, '')
}
