% [mem, threads] = vf_leak(calls, warm, reps, rounds): memory in use and number of threads after each round of reps repetitions of the calls; bad: errors of a round
function [mem, thr, bad] = vf_leak(calls, warm, reps, rounds)
  mem = zeros(1, rounds);
  thr = zeros(1, rounds);
  Z = cell(1, numel(calls));
  for k = 1:numel(calls)
    Z{k} = calls{k}.args;
  end
  if (isempty(calls{1}.thr))               % once, as setenv itself leaks
    unsetenv('DREAM_NUM_THREADS');
  else
    setenv('DREAM_NUM_THREADS', calls{1}.thr);
  end
  vf_leak_round(calls, Z, warm);
  for r = 1:rounds
    bad = vf_leak_round(calls, Z, reps);
    [mem(r), thr(r)] = vf_mem();
  end
end

function bad = vf_leak_round(calls, Z, n)
  bad = 0;
  for i = 1:n
    for k = 1:numel(calls)
      c = calls{k};
      a = Z{k};
      for j = 1:numel(a)
        if (ischar(a{j}) && strcmp(a{j}, '@Y'))
          a{j} = c.Y + 0;
        end
      end
      try
        if (c.nout == 0)
          feval(c.fn, a{:});
        elseif (c.nout == 1)
          o = feval(c.fn, a{:});
        else
          [o, p] = feval(c.fn, a{:});
        end
      catch e
        bad = bad + 1;
      end
      o = 0; p = 0; e = 0; a = 0;
    end
  end
end
