% Executes calls read (as .mat file names) from a fifo, one per line.
% Each .mat holds: fn (char), nout, args (1xN cell), env (kx2 cell).
function vf_server(fifo_in, fifo_out)
  warning('off', 'all');
  fi = fopen(fifo_in, 'r');
  fo = fopen(fifo_out, 'w');
  while true
    l = fgetl(fi);
    if (! ischar(l)), return; end
    if isempty(l), continue; end
    S = load(l);
    n = numel(S.calls);
    R = cell(1, n);
    for k = 1:n
      if S.calls{k}.fork
        R{k} = vf_fork(S.calls{k}, [l '.child']);
      else
        R{k} = vf_do(S.calls{k});
      end
    end
    fflush(stdout); fflush(stderr);
    save('-v6', [l '.out'], 'R');
    fprintf(fo, 'done\n'); fflush(fo);
  end
end

function r = vf_fork(c, f)
  pid = fork();
  if pid == 0
    r = vf_do(c);
    fflush(stdout); fflush(stderr);
    save('-v6', f, 'r');
    kill(getpid(), 9);
  end
  waitpid(pid);
  r = 0;
  if exist(f, 'file')
    T = load(f);
    r = T.r;
    unlink(f);
  end
end

function r = vf_do(c)
  r = struct(); r.out = {}; r.exc = ''; r.args = {};
  for j = 1:size(c.env, 1)
    v = c.env{j,2};
    if isempty(v), unsetenv(c.env{j,1}); else setenv(c.env{j,1}, v); end
  end
  args = c.args;
  fn = c.fn;
  out = cell(1, c.nout);
  got = 0;
  try
    if c.nout == 0
      feval(fn, args{:});
    else
      [out{1:c.nout}] = feval(fn, args{:});
    end
    got = 1;
  catch e
    r.exc = e.message;
    if isempty(r.exc), r.exc = '(empty error)'; end
  end
  if got
    for j = 1:numel(out)
      if isempty(out{j}) && ! ischar(out{j}), out{j} = zeros(size(out{j})); end
      if islogical(out{j}), out{j} = double(out{j}); end
    end
    r.out = out;
  end
  r.args = {};
  if c.copy, r.args = args; end
  r.text = '';
end
