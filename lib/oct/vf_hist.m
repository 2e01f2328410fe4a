% [states, status, same] = vf_hist(Y0, ops): runs a history of in-place calls on one matrix.
% ops{k} = struct('fn','conv_p','args',{{...}},'thr','4','wis',0|1); the string '@Y' stands for the matrix and
% '@W' for an FFTW wisdom string.  states{k} is the matrix after the k:th call, status{k} the error message,
% same(k) tells whether all other arguments are unchanged.
function [states, status, same] = vf_hist(Y0, ops)
  Y = Y0 + 0;
  n = numel(ops);
  states = cell(1, n);
  status = cell(1, n);
  same = ones(1, n);
  W = '';
  for k = 1:n
    op = ops{k};
    a = op.args;
    if (isempty(op.thr))
      unsetenv('DREAM_NUM_THREADS');
    else
      setenv('DREAM_NUM_THREADS', op.thr);
    end
    if (op.wis)
      [tmp, W] = fftconv_p(ones(op.wis, 1), ones(2, 1));
    end
    keep = cell(size(a));
    for j = 1:numel(a)
      if (ischar(a{j}) && strcmp(a{j}, '@Y'))
        a{j} = Y;
      elseif (ischar(a{j}) && strcmp(a{j}, '@W'))
        a{j} = W;
      elseif (isnumeric(a{j}))
        keep{j} = a{j} + 0;
      end
    end
    status{k} = '';
    try
      feval(op.fn, a{:});
    catch e
      status{k} = ['E' e.message];
    end
    for j = 1:numel(a)
      if (! isempty(keep{j}) && ! isequal(keep{j}, a{j}))
        same(k) = 0;
      end
    end
    a = {};
    states{k} = Y + 0;
  end
end
