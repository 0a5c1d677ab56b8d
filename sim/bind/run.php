<?php
set_error_handler(function ($no, $msg) { fwrite(STDERR, "PHP: $msg\n"); return true; });
$path = $argv[2];
$rules = $htmls = [];

function hx($s) { return is_string($s) ? bin2hex($s) : '?' . gettype($s); }
function show($v) {
  if (!is_array($v)) return 'V?' . gettype($v);
  $o = 'V';
  $n = 0;
  foreach ($v as $i => $d) {
    if ($i !== $n++) return 'V?index';
    if (!is_array($d)) { $o .= '?' . gettype($d); continue; }
    $ks = array_map('strval', array_keys($d));
    sort($ks, SORT_STRING);
    $o .= '[';
    foreach ($ks as $k) {
      $x = $d[$k];
      $o .= bin2hex($k) . '=';
      if (is_array($x)) {
        if (!array_is_list($x)) return 'V?list';
        $o .= '(' . implode(',', array_map(fn($y) => "'" . hx($y), $x)) . ')';
      } else $o .= "'" . hx($x);
      $o .= ';';
    }
    $o .= ']';
  }
  return $o;
}
function one($opno, $spec, $rep, $f, $la, $keep) {
  simp_arm($la[0], $la[1]);
  $v = null;
  $err = '';
  try { $v = $f(); } catch (\Throwable $e) { $err = get_class($e); unset($e); }
  $lib = simp_allocs();
  $fired = simp_fired();
  simp_disarm();
  $res = $err !== '' ? 'E' . $err : ($keep ? 'V' : show($v));
  $kept = $err === '' && $keep ? $v : null;
  unset($v);
  gc_collect_cycles();
  $live = memory_get_usage();
  $cpp = simp_live();
  echo "O $opno $spec $rep $fired 0 $cpp $live $res\n";
  return [$kept, $lib];
}
function operate($opno, $faults, $keep, $store, $f) {
  [$v, $lib] = one($opno, '-', 0, $f, [0, 0], $keep);
  if ($keep && $v) $store($v);
  unset($v);
  if ($faults) [, $lib] = one($opno, '-', 1, $f, [0, 0], $keep);
  foreach ($faults as $spec) {
    [$body, $reps] = explode('*', $spec);
    $la = [0, 0];
    foreach (explode('&', $body) as $part)
      if ($part[0] == 'L') {
        [$pos, $len] = explode('+', substr($part, 1));
        $a = intdiv($pos * $lib, 10000);
        $la = $len == 'a' ? [$a, 1 << 40] : [$a, $a + (int)$len];
      }
    for ($rep = 0; $rep < (int)$reps; ++$rep) {
      [$v] = one($opno, $spec, $rep, $f, $la, $keep);
      if ($keep && $v) $store($v);
      unset($v);
    }
  }
  if ($faults && !$keep) one($opno, '-', 2, $f, [0, 0], $keep);
}
// Calls that no correct script makes. Each must throw; those marked true may as well work.
function wrong($r, $h) {
  $none = fn($c) => (new ReflectionClass($c))->newInstanceWithoutConstructor();
  return [
    [fn() => $r->extract(null), false], [fn() => $r->extract(5), false], [fn() => $r->extract('<a>'), false], [fn() => $r->extract($r), false],
    [fn() => $r->extract(), false], [fn() => $r->extract($h, 0, 0), false], [fn() => $r->extract($h, 'x'), true], [fn() => $r->extract($h, -1), true],
    [fn() => $r->extract($h, 1e300), true], [fn() => $r->extract($h, 1.5), true], [fn() => $r->extract($h, null), true], [fn() => $r->extract([$h]), false],
    [fn() => new HextRule(null), true], [fn() => new HextRule(), false], [fn() => new HextRule(5), true], [fn() => new HextRule('<a />', '<b />'), false],
    [fn() => new HextHtml(null), true], [fn() => new HextHtml(), false], [fn() => new HextHtml([]), true],
    [fn() => $none('HextRule')->extract($h), false], [fn() => $r->extract(new stdClass()), false],
    [fn() => (clone $r)->extract($h), true], [fn() => $r->extract(clone $h), true], [fn() => $r->extract($h, NAN), true], [fn() => $r->extract($h, [1]), true],
    [fn() => $r->extract($h, $h), true], [fn() => unserialize(serialize($r))->extract($h), true],
  ];
}
// Known findings in SWIG's own glue.
function known($opno, $v, $r) {
  if ($v == 0) $r->extract((new ReflectionClass('HextHtml'))->newInstanceWithoutConstructor());
  else for ($i = 0; $i < 50; ++$i) { $o = new stdClass(); try { new HextRule($o); } catch (\Throwable $e) {} $a = [$o, clone $o, "$i", $i . 'x']; unset($o, $a); }
  echo "O $opno - 0 0 0 0 0 E\n";
}
function misuse($opno, $v, $r, $h) {
  $l = wrong($r, $h);
  [$f, $may] = $l[$v % count($l)];
  try { $f(); $res = $may ? 'L' : 'Vaccepted'; } catch (\Throwable $e) { $res = 'E' . get_class($e); }
  echo "O $opno - 0 0 0 0 0 $res\n";
}
foreach (file($path) as $line) {
  $w = preg_split('/\s+/', trim($line));
  switch ($w[0]) {
    case 'S': simp_fill((int)$w[1], (int)$w[2]); break;
    case 'R':
      $text = hex2bin(substr($w[3], 1));
      operate($w[1], array_slice($w, 4), true, function ($v) use (&$rules, $w) { $rules[$w[2]] = $v; }, function () use ($text) { return new HextRule($text); });
      break;
    case 'H': $htmls[$w[2]] = new HextHtml(hex2bin(substr($w[3], 1))); break;
    case 'E':
      $r = $rules[$w[2]];
      $h = $htmls[$w[3]];
      $n = (int)$w[4];
      operate($w[1], array_slice($w, 5), false, null, function () use ($r, $h, $n) { return $r->extract($h, $n); });
      break;
    case 'K':
      $r = $rules[$w[2]];
      operate($w[1], [], false, null, function () use ($r, $w) { return $r->extract(new HextHtml(hex2bin(substr($w[3], 1))), (int)$w[4]); });
      break;
    case 'X': misuse($w[1], (int)$w[2], $rules[$w[3]], $htmls[$w[4]]); break;
    case 'Y': known($w[1], (int)$w[2], $rules[$w[3]]); break;
    case 'D': if ($w[2] == 'r') unset($rules[$w[3]]); else unset($htmls[$w[3]]); break;
    case 'G': gc_collect_cycles(); break;
  }
}
unset($r, $h);
$rules = $htmls = [];
gc_collect_cycles();
echo "END\n";
