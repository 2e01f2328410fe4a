% [done, t, msg] = vf_intr(fn, args, tile, delay): a call during which this process gets SIGINT after delay seconds (never if negative);
% the arguments tile(:,1) are repeated tile(:,2) times
function [done, t, msg] = vf_intr(fn, args, tile, delay)
  for k = 1:size(tile, 1)
    args{tile(k,1)} = repmat(args{tile(k,1)}, tile(k,2), 1);
  end
  pid = 0;
  me = getpid();
  if (delay >= 0)
    pid = fork();
    if (pid == 0)
      pause(delay);
      kill(me, 2);
      kill(getpid(), 9);
    end
  end
  done = 0;
  msg = '';
  t0 = tic;
  try
    r = feval(fn, args{:});
    done = 1;
  catch e
    msg = e.message;
  end
  t = toc(t0);
  if (pid > 0)
    kill(pid, 9);
    waitpid(pid);
  end
end
