base, path = ARGV
$LOAD_PATH.unshift(base)
require 'hext.so'
$stdout.sync = true
RULES, HTMLS = {}, {}

def hx(s) = s.is_a?(String) ? s.unpack1('H*') : "?#{s.class}"

def show(v)
  return "V?#{v.class}" unless v.is_a?(Array)
  v.reduce(+'V') do |o, d|
    next o << "?#{d.class}" unless d.is_a?(Hash)
    o << '[' << d.keys.sort_by { |k| k.b }.map { |k|
      x = d[k]
      hx(k) + '=' + (x.is_a?(Array) ? '(' + x.map { |y| "'" + hx(y) }.join(',') + ')' : "'" + hx(x)) + ';'
    }.join << ']'
  end
end

def one(opno, spec, rep, la, points, stress, keep)
  Hext.simp_arm(la[0], la[1])
  Hext.simr_plan(points)
  v = err = nil
  begin
    GC.stress = true if stress
    v = yield
  rescue Exception => e
    err = e.class.name
  ensure
    GC.stress = false if stress
  end
  calls, fired = Hext.simr_calls, Hext.simr_fired
  Hext.simr_plan('')
  lib, libfired = Hext.simp_allocs, Hext.simp_fired
  Hext.simp_disarm
  res = err ? 'E' + err : (keep ? 'V' : show(v))
  $stdout.write("O #{opno} #{spec} #{rep} #{libfired} #{fired + (stress ? 1 : 0)} #{Hext.simp_live} 0 #{res}\n")
  [err || !keep ? nil : v, lib, calls]
end

def operate(opno, faults, keep, store = nil, &f)
  v, lib, calls = one(opno, '-', 0, [0, 0], 'z999999999', $stress, keep, &f)
  store.call(v) if v
  v, lib, calls = one(opno, '-', 1, [0, 0], 'z999999999', false, keep, &f) unless faults.empty?
  faults.each do |spec|
    body, reps = spec.split('*')
    la, points, stress = [0, 0], '', false
    body.split('&').each do |part|
      if part[0] == 'L'
        pos, len = part[1..].split('+')
        a = pos.to_i * lib / 10000
        la = len == 'a' ? [a, 1 << 40] : [a, a + len.to_i]
      elsif part == 'Gs'
        stress = true
      elsif part[0] == 'G'
        points = part[1..].split('.').map { |g| g[1] == '-' ? "#{g[0]}0" : "#{g[0]}#{g[1..].to_i * calls / 10000 + 1}" }.join(',')
      end
    end
    reps.to_i.times do |rep|
      v, = one(opno, spec, rep, la, points, stress, keep, &f)
      store.call(v) if v
    end
  end
  one(opno, '-', 2, [0, 0], '', false, keep, &f) if !faults.empty? && !keep
end

def bytes(w, enc = 'UTF-8') = [w[1..]].pack('H*').force_encoding(enc)

# Calls that no correct script makes. Each must raise; those marked true may as well work.
def wrong(r, h)
  [
    [-> { r.extract(nil) }, false], [-> { r.extract(5) }, false], [-> { r.extract('<a>') }, false], [-> { r.extract(r) }, false],
    [-> { r.extract }, false], [-> { r.extract(h, 0, 0) }, false], [-> { r.extract(h, '1') }, false], [-> { r.extract(h, -1) }, true],
    [-> { r.extract(h, 1 << 70) }, false], [-> { r.extract(h, 1.5) }, true], [-> { r.extract(h, nil) }, true], [-> { r.extract([h]) }, false],
    [-> { Hext::Rule.new(nil) }, false], [-> { Hext::Rule.new }, false], [-> { Hext::Rule.new(5) }, false], [-> { Hext::Rule.new('<a />', '<b />') }, false],
    [-> { Hext::Html.new(nil) }, false], [-> { Hext::Html.new }, false], [-> { Hext::Html.new([]) }, false], [-> { Hext::Rule.new(h) }, false],
    [-> { Hext::Rule.instance_method(:extract).bind_call(h, h) }, false], [-> { Hext::Rule.allocate.extract(h) }, false], [-> { r.extract(Hext::Html.allocate) }, false],
    [-> { r.extract(Object.new) }, false], [-> { Hext::Rule.new(:sym) }, false], [-> { r.extract(h, Float::NAN) }, true], [-> { r.extract(h, Float::INFINITY) }, true],
    [-> { Hext::Rule.new("<a @text:x />".encode('UTF-16LE')) }, true], [-> { r.dup.extract(h) }, true], [-> { r.extract(h.dup) }, true], [-> { r.clone.extract(h.clone) }, true],
  ]
end
def misuse(opno, v, r, h)
  l = wrong(r, h)
  f, may = l[v % l.size]
  begin
    f.call
    res = may ? 'L' : 'Vaccepted'
  rescue StandardError => e
    res = 'E' + e.class.name
  end
  $stdout.write("O #{opno} - 0 0 0 0 0 #{res}\n")
end

$stress = false
File.foreach(path) do |line|
  w = line.split
  case w[0]
  when 'S' then Hext.simp_fill(w[1].to_i, w[2].to_i)
  when 'C'
    $stress = true if w[1] == 'stress'
    GC.auto_compact = true if w[1] == 'autocompact' && w[2] == '1'
  when 'R'
    text = bytes(w[3])
    operate(w[1].to_i, w[4..], true, ->(v) { RULES[w[2]] = v }) { Hext::Rule.new(text) }
  when 'H' then HTMLS[w[2]] = Hext::Html.new(bytes(w[3]))
  when 'E'
    r, h, n = RULES[w[2]], HTMLS[w[3]], w[4].to_i
    operate(w[1].to_i, w[5..], false) { r.extract(h, n) }
  when 'K'
    r = RULES[w[2]]
    operate(w[1].to_i, [], false) { r.extract(Hext::Html.new(bytes(w[3])), w[4].to_i) }
  when 'X' then misuse(w[1].to_i, w[2].to_i, RULES[w[3]], HTMLS[w[4]])
  when 'D' then (w[2] == 'r' ? RULES : HTMLS).delete(w[3])
  when 'G' then GC.start
  end
end
RULES.clear
HTMLS.clear
GC.start
$stdout.write("END\n")
